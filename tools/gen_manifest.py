"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAW = 'exhaustive enumeration of executions of the real code under a controlled noise source; exact laws from a basis of the noise space'
PROD = 'exhaustive enumeration of inputs and configurations over finite alphabets on the real code, against an independent reference model'
HIST = 'exhaustive enumeration of noise histories on the real code, every step compared with the transition of a reference model'
BASE = ('Every execution within the bounds (BOUNDS in mc/checks/%s.py, repeated in the evidence) is run on the code of /repo itself; '
        'nothing is sampled and there is no model that could drift from the code. ')
NOISE = 'Trusts that jax.random.normal turns uniform bits into standard normals and NumPy/SciPy as the oracle arithmetic. '
T = {
 'C01': (PROD, 'The correction is a quadratic form in the monomial coefficients of sigma: pairs of entries decide it for all polynomials of the degree bound; conversion words up to length 3 are enumerated.'),
 'C02': (LAW, NOISE + 'The law is exact (affine image of Gaussians; affinity is checked on all pairs of variables) for the enumerated dimensions, interval lengths and resolutions.'),
 'C03': (LAW, NOISE + 'The relation is affine in the noise and checked on all 3^n histories for small n, on a basis with pairs otherwise.'),
 'C04': (PROD, 'Bilinear in the coefficients and quadratic in time, so the enumerated grid determines the functions for the enumerated dimensions.'),
 'C05': (HIST, NOISE + 'A probing integrator reports field values handed to it; every history of the alphabet up to the step bound is compared step by step.'),
 'C06': (LAW, NOISE + 'Joint laws of whole runs against the Markov chain of their one-step kernels; every variable of an execution is varied alone.'),
 'C07': (PROD, 'All monomial fields and pairs within the degree bound.'),
 'C08': (HIST, NOISE + 'All increment histories over a three-letter alphabet up to the bound.'),
 'C09': (PROD, 'Reference: conditioning of the joint Gaussian in double precision. Ill-conditioned models are skipped and counted.'),
 'C10': (PROD, 'Both forms of every solver over products of degenerate inputs; tolerance accounts for square roots of singular matrices.'),
 'C11': (PROD, 'Reference: block matrix exponentials; quadrature error bounded rigorously.'),
 'C12': (PROD, 'Unit vectors decide the linear rearrangements; uncoupled systems are enumerated.'),
 'C13': (PROD, 'Reference: extended Kalman filter in NumPy on the documented state-space model.'),
 'C14': (HIST, 'Chains of filter steps against the reference maps on (mean, covariance).'),
 'C15': (LAW, NOISE + 'Law of the drawn sample from a basis of the sampling noise, compared with the posterior.'),
 'C16': (LAW, NOISE + 'Laws of the filter output and conditional kernels of every driver step at every reached state.'),
 'C17': (HIST, NOISE + 'Every step against the Kloeden-Platen scheme; all monomials within the degree bound.'),
 'C18': (LAW, NOISE + 'One-step kernels at every reached state against the stated Gaussian.'),
 'C19': (LAW, NOISE + 'Exact moments (basis of the noise space; for multiplicative noise quadrature over all node words) along refinement sequences; the rate is asserted on the enumerated sequence only.'),
 'C20': (PROD, 'Taylor coefficients of the moments from the generator of the SDE by exact differentiation; formulas on a time grid; vector fields on a grid of states.'),
 'C21': ('explicit-state checking of an automaton over the bar events of every enumerated iteration count, loop form and run history of the real code', 'Bar events are observed on a stand-in for tqdm.'),
 'C22': (PROD, 'All residual sequences over a small alphabet.'),
 'C23': (PROD, 'All solvers x step counts x step sizes x state structures within the bounds.'),
 'C24': (PROD, 'All evaluation modes of all public functions; equality up to rounding.'),
 'C25': ('exhaustive enumeration of call histories: every word of length two over the operation alphabet executed on the real process, results compared with fresh processes', 'The alphabet varies one argument at a time; longer dependencies than the word length are only covered as far as the walks realise them.'),
 'C26': (LAW, NOISE + 'Mean-square error exact (projection of the SDE solution on the returned path functionals; quadrature over all node words for multiplicative noise) along refinement sequences.'),
 'C27': (PROD, NOISE + 'Exact law of Gaussian outputs in both precisions; paths for a bounded set of noise assignments; tolerances two orders above rounding.'),
 'C28': (PROD, 'Orders read off refinement sequences of all fields of the alphabet; SciPy DOP853 as the oracle.'),
}
checks = [dict(property=p, quick_cmd=f'./run.sh {p}', thorough_cmd=f'VERIF_TIER=thorough ./run.sh {p}', technique=t, level='model_checking',
               level_note=BASE % p.lower() + n) for p, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd='JAX_PLATFORMS=cpu PYTHONPATH=/repo /opt/venv/bin/python -B -c "import jax, numpy, scipy, bayesian_sde_solver.sde_solver"', checks=checks, not_applicable=[],
         notes='No hooks in /repo: the noise source is exchanged in the JAX PRNG registry from the outside.  MC_REPO=<dir> points the checks at another tree.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
