#!/usr/bin/env python3
"""Rewrites the "fixed" entries of KNOWN_FINDINGS.json from the fix: commits of /repo; never run by a check.

The property of each fix is looked up by the words of its subject."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("rounded to single precision when a point", "C25"), ("steps much larger than the values", "C04"), ("gaps whose squares underflow", "C08"), ("points much larger than its radius", "C05"), ("do not truncate the direction", "C06"), ("projection of the smallest integers", "C05"), ("linear operators that return their argument", "C13"), ("gradient is evaluated at the iterate taken", "C11"), ("total variation of unsigned", "C25"), ("L1 norm of unsigned integers", "C04"), ("group lasso accepts integers", "C04"), ("L2 ball does not overflow for integers", "C05"), ("simplex of unsigned integers", "C05"),
       ("do not overflow for integer data", "C03"), ("get_max_lipschitz sums", "C03"), ("safe_sparse_add", "C21"), ("callbacks of minimize_vrtos find", "C17"), ("pairwise Frank-Wolfe step of size zero", "C10"), ("simplex projection", "C05"), ("SimplexConstraint.lmo", "C06"), ("LogLoss Hessian-vector products with an intercept", "C02"), ("regularization term in LogLoss Hessian", "C02"),
       ("LogLoss.f_grad with intercept", "C01"), ("HuberLoss gradient for sparse", "C01"), ("Hessian-vector products with an integer", "C02"), ("finite difference", "C20"),
       ("solvers no longer truncate", "C20"), ("reweighting of the blocks", "C14"), ("minimize_sfw accepts a callable", "C16"), ("drop steps remove", "C10"), ("load_img1", "C23"),
       ("removed alias np.int", "C23"), ("Demyanov-Rubinov step-size in minimize_sfw", "C16"), ("step_size='DR' and variants", "C16"), ("TraceBall.lmo", "C06"), ("lipschitz constant of the losses", "C03"),
       ("certificate of the accelerated", "C11"), ("accelerated proximal gradient rejects", "C17"), ("certificate and sufficient decrease", "C11"), ("bounds the step by", "C13"),
       ("reports success, as documented", "C09"), ("can be loaded again after an interrupted download or", "C24"), ("can be loaded again after an interrupted download", "C24"), ("load_kdd12 retries", "C24"),
       ("SVRG gradient estimate", "C14"), ("variance-reduced methods sum", "C14"), ("HuberLoss gradient with integer", "C01"), ("LogLoss with integer", "C01"), ("single feature", "C02"),
       ("max_lipschitz sums", "C03"), ("recovers from a Lipschitz estimate of zero", "C09"), ("proximal gradient line search is not fooled", "C11"), ("keeps its step size non-increasing", "C11"),
       ("line search of minimize_primal_dual is not fooled", "C13"), ("line search of minimize_three_split", "C12"), ("three operator splitting", "C12")]
# subjects on which several keys match take the first in file order of the longest key
def prop(s):
    hit = [k for k in MAP if k[0] in s]
    if not hit:
        raise SystemExit("no property for: " + s)
    return max(hit, key=lambda k: len(k[0]))[1]
p = os.path.join(HERE, "KNOWN_FINDINGS.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": []}
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
d["fixed"] = ["fixed: property=%s %s %s" % (prop(l), l.split(" ", 1)[0], l.split("fix: ", 1)[1]) for l in out.splitlines() if " fix: " in l]
json.dump(d, open(p, "w"), indent=1)
print(len(d["fixed"]), "fixed,", len(d["findings"]), "findings")
