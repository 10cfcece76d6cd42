S = "stateless bounded-exhaustive exploration of the real code"
PROPS, NA = [], {}
def P(id, title, statement, over, qtext, tests, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=tests,
        anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe or [], "hook_needed": None},
        technique=technique, note=note))
RU = "src/learning/toolkit/rand_utils.rs"
SEAM = "Trusted: the rand stand-in (rand 0.4.6 with a controlled thread_rng/gen_range) and the engine."

P("C01", "Shuffling yields every permutation, equally likely",
  "Both Fisher-Yates shuffles return a permutation of their input for every outcome of the random draws. Over the random draws every permutation of the input is reachable and all are equally likely, also on repeated calls.",
  ["inputs", "schedules"], "every slice (length, element type, duplicates) and every sequence of random outcomes",
  "The tests draw one random outcome of one slice and check that it has the same elements; reachability and probability of the n! outcomes need all of them.",
  [RU], [("inside-out Fisher-Yates: j drawn from 0..=i", RU + ": fisher_yates"), ("swap with a draw from 0..=i", RU + ": in_place_fisher_yates")],
  S + " over all random outcomes", "Exhaustive (exact probabilities) to n=8 (thorough 9); sizes to 129 (300) with at most one/two deviating draws from three default streams; permutation for all n<=700 and sizes to 100000 on default streams. " + SEAM)
P("C02", "Reservoir sampling yields every subset, equally likely",
  "Sampling k of n returns k elements taken from k distinct positions of the pool for every outcome of the random draws, and rejects k > n. Over the random draws every k-subset of positions is equally likely.",
  ["inputs", "schedules"], "every pool, every sample size and every sequence of random outcomes",
  "The tests check the length of one random sample; uniformity is a statement about all outcomes.",
  [RU], [("replacement index drawn from 0..elements seen", RU + ": reservoir_sample")],
  S + " over all random outcomes", "Exhaustive (exact probabilities) to pool 8 (thorough 9), every size; pools to 129 (300) with at most one/two deviating draws. " + SEAM)
P("C03", "Activation functions, their gradients and inverses agree everywhere",
  "Each activation function equals its mathematical definition over the whole real line without leaving its range, also where intermediate exponentials overflow. Its gradient is its derivative, the gradient computed from the output equals the gradient at the input, and the inverse undoes the function in both directions.",
  ["inputs"], "all four activations and all real inputs, including saturated and extreme ones",
  "The tests evaluate a few moderate points; overflow and saturation appear only at extreme inputs and the relation between the four functions at none.",
  ["src/learning/toolkit/activ_fn.rs"], [("ActivationFunc impls", "src/learning/toolkit/activ_fn.rs: Sigmoid, Linear, Exp, Tanh")],
  S + " over a finite input grid", "All points of a grid covering every binary exponent, both signs, saturation and infinities. Between grid points nothing is decided.")
P("C04", "Gaussian density, log density and distribution function are consistent",
  "For every mean and variance, the density and the log density are those of the normal distribution and the distribution function is non-decreasing, symmetric about the mean and within 0.0032 of the true one. The two constructors and the default describe the same distribution. A distribution that does not define its log density gets the logarithm of its density.",
  ["inputs"], "all means, variances and evaluation points",
  "The tests evaluate the standard normal and one other at a few points; agreement between constructors, scaling and tails are not reached.",
  ["src/stats/dist/gaussian.rs", "src/stats/dist/mod.rs"], [("pdf/logpdf/cdf", "src/stats/dist/gaussian.rs: impl Distribution<f64> for Gaussian")],
  S + " over a finite parameter x input grid", "All points of a grid of 15 means x 24 deviations x ~13,000 (thorough ~205,000) standardised points, and of 769 deviations x 7 means x 12 points; nothing decided between them.")
P("C05", "Exponential density, log density and distribution function are consistent",
  "For every rate, density, log density and distribution function are those of the exponential distribution on non-negative inputs, and the rate is reported as given. Every negative input is rejected.",
  ["inputs"], "all rates and evaluation points",
  "The tests evaluate a few rates at a few points.",
  ["src/stats/dist/exponential.rs"], [("pdf/logpdf/cdf and their input assertions", "src/stats/dist/exponential.rs: impl Distribution<f64> for Exponential")],
  S + " over a finite parameter x input grid", "All points of a grid of 27 rates x ~16,000 (thorough ~250,000) inputs, and of 769 rates x 14 points; nothing decided between them.")
P("C06", "Samples are the affine image of the standard draw",
  "A normal sample is mean + deviation times a standard normal draw and an exponential sample is a unit exponential draw over the rate, through either sampling trait and on every consecutive call. Sampling from equally seeded generators gives equal samples.",
  ["inputs", "schedules"], "all parameters, every sequence of standard draws and every generator",
  "No test samples a distribution at all.",
  ["src/stats/dist/gaussian.rs", "src/stats/dist/exponential.rs"], [("Sample / IndependentSample impls", "src/stats/dist/gaussian.rs, src/stats/dist/exponential.rs")],
  S + " over all random outcomes", "Every combination of parameters and 7 representative standard draws over 2-3 calls, plus seeded real generators. " + SEAM)
exec(open(__file__.replace("props.py", "props2.py")).read()) if __import__("os").path.exists(__file__.replace("props.py", "props2.py")) else None
