from run import Shard

RULE = ("Every function of the expression language, in double and extended precision, with varying, uniform and mixed operands, at random arguments over the whole domain and around every "
        "switch point; compared with an mpmath evaluation of the definition. Derivative rules, inverses, identities, argument counts, registered functions. Distinct: different (function, precision, sample size).")
ASSUMPTIONS = ["accuracy of the published approximations (Joyce-Dixon, Paasch-Scheinert) against the integrals themselves is 0.35 % and 20 %; against their formulas it is rounding",
               "the symbolic engine is a stand-in for the missing submodule; the derivative table it uses is the repository's"]
TECHNIQUE = "runtime monitoring: values observed in sanitized and plain simulator runs, oracle is an mpmath evaluation of each definition at the same arguments"
LEVEL_NOTE = "Held at the arguments generated, both precisions; extended precision observed through residuals against the double rounding of the true value. Trusts mpmath."
MUST_OBSERVE = ["double", "extended", "extended_residuals", "scalar_path", "mixed_path", "derivatives", "rejections", "integrals", "identities"]


def shards(tier, seed):
    per = 77 if tier == "quick" else 770
    out = [Shard("functions", "plain", n=per * 2, offset=i * per * 2) for i in range(7)]
    out.append(Shard("functions", "asan", n=per, offset=100000 * per))
    return out
