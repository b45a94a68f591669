"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EST = "robuststats/estimation/covariance.py"
BASE = "robuststats/estimation/base.py"
STR = "robuststats/estimation/structured.py"
MAN = "robuststats/models/manifolds.py"
PROB = "robuststats/models/probability.py"
MAPS = "robuststats/models/mappings.py"
COST = "robuststats/models/cost.py"
LIN = "robuststats/utils/linalg.py"
GEN = "robuststats/utils/generation_data.py"
CHK = "robuststats/utils/checking.py"
MC = "robuststats/utils/montecarlo.py"
ONL = "robuststats/online/estimation.py"
VERB = "robuststats/utils/verbose.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, note=note))


prop("C01", "Tyler fixed-point iterations apply Tyler's map",
     "One step of the fixed-point Tyler shape estimation (real or complex), from any positive definite start S and any nonzero samples x_i of dimension p, returns (p/N) sum_i x_i x_i^H / (x_i^H S^-1 x_i). k steps are k compositions of that map, through the function as through the estimator object, and without a start the iteration begins at the empirical second moment.",
     ["inputs"], "all real/complex data sets and all positive definite starts within the size bounds, forced 0-3 steps",
     "tests only compare one seeded Gaussian data set to a loose tolerance (or only check shapes); a wrong weight still yields a plausible matrix",
     [EST], [("tyler_shape_matrix_fixedpoint", EST), ("complex_tyler_shape_matrix_fixedpoint", EST), ("TylerShapeMatrix / ComplexTylerShapeMatrix", EST)])
prop("C02", "Tyler's estimate is invariant to sample scales, affine equivariant",
     "The Tyler fixed-point estimate does not change when any sample is multiplied by any nonzero scalar (complex phases included) after the start, nor with the order of the samples. Multiplying all samples and the start by an invertible matrix A turns the estimate Sigma into A Sigma A^H, and rescaling the start does not change the shape.",
     ["inputs"], "all data, starts, per-sample scalars, invertible transforms and permutations within the size bounds",
     "an invariance relates two runs over all scalings; no test runs the estimator twice",
     [EST], [("tyler_shape_matrix_fixedpoint", EST), ("complex_tyler_shape_matrix_fixedpoint", EST)])
prop("C03", "Student-t fixed-point iterations are the maximum-likelihood map",
     "One step of the centred Student-t estimation with nu degrees of freedom maps S to (1/N) sum_i w_i x_i x_i^H with w_i = (nu+p)/(nu + x_i^T S^-1 x_i) for real data and (nu/2+p)/(nu/2 + x_i^H S^-1 x_i) for complex data, so its fixed points are the stationary points of the library's own t likelihood. k steps compose, the default start is the empirical second moment, and nonpositive degrees of freedom are refused.",
     ["inputs"], "all data, positive definite starts and degrees of freedom within the size bounds",
     "tests fit one data set with one df and check shapes or a loose error; swapped weight terms pass",
     [EST], [("student_t_mle_fixed_point", EST), ("complex_student_t_mle_fixed_point", EST)])
prop("C04", "Huber iterations use Huber's weights and are Gaussian-consistent",
     "With q in (0,1), one Huber step maps S to (1/N) sum_i u(t_i) x_i x_i^H, t_i = x_i^H S^-1 x_i, where u(t) = 1/beta for t <= lambda and lambda/(beta t) beyond. lambda is the q-quantile of t under the Gaussian model and beta the constant making the estimator consistent for Gaussian data, for real and for complex data.",
     ["inputs"], "all data, starts and q in (0,1); every combination of samples inside/outside the threshold within the size bounds",
     "tests check one data set where the constants only change a global scale and both branches are not told apart",
     [EST], [("_huber_m_estimator_function", EST), ("huber_m_estimator_fixed_point", EST), ("complex_huber_m_estimator_fixed_point", EST)])
prop("C05", "Iterative estimation stops as documented and reports error and count",
     "Every iterative estimator stops at the first step whose relative change falls to the tolerance or below, or after the maximal number of iterations, whichever comes first. The reported iteration count and error are those of the returned iterate (relative Frobenius change of the last step), also on the estimator object.",
     ["inputs", "histories"], "all data, starts, tolerances and iteration limits (0-3) within the size bounds",
     "the stopping step depends on the tolerance and data; tests never look at the count or the error of a run stopped early or by the limit",
     [EST, STR], [("*_fixed_point iterations", EST), ("estimation_cov_kronecker_MM", STR)])
prop("C06", "Shape normalisations meet their constraint and change only the scale",
     "A normalised Tyler estimate is proportional to the unnormalised one and satisfies its constraint exactly: trace equal to the dimension, unit determinant, or unit first element; an unknown or absent normalisation leaves it as it is. The reported error and count are those of the iteration before normalisation.",
     ["inputs", "configurations"], "all positive definite iterates, every normalisation, real and complex",
     "tests use one normalisation on one data set and a rounding tolerance",
     [EST], [("get_normalisation_function", EST)])
prop("C07", "Complex empirical covariance is the sample covariance, with exact distances",
     "The complex empirical covariance of any data is (1/N) sum (x_i-m)(x_i-m)^H with m the mean (zero when assumed centred), Hermitian and positive semidefinite, left unstored/stored precision included. The distance of the estimate to any matrix is the (squared, optionally scaled) Frobenius or spectral norm of the difference - a nonnegative real number for complex matrices as well - and Mahalanobis distances are x^H S^-1 x.",
     ["inputs", "configurations"], "all complex/real data within the size bounds; all comparison matrices; every option combination",
     "tests compare on a few random matrices; complex-specific slips (transpose instead of conjugate transpose, |z|^2 as z^2) need generic complex inputs and all options",
     [BASE], [("complex_empirical_covariance", BASE), ("ComplexEmpiricalCovariance", BASE), ("error_norm", BASE), ("mahalanobis", BASE)])
prop("C08", "Fitting an estimator yields a consistent, reusable object",
     "Fitting returns the estimator itself with a Hermitian positive semidefinite covariance of the data's dimension, a zero location for centred models, and the precision of that covariance when asked for. The data and the start passed in are never modified, the result depends only on the current parameters and the last data (not on earlier fits), and transforming hands over exactly the fitted covariance.",
     ["inputs", "histories", "configurations"], "all data and starts within bounds; histories of fit / set_params / fit for every estimator class",
     "tests fit each class once on one data set; state left over from an earlier fit or a mutated input never shows",
     [EST, BASE], [("fit of the six iterative estimators", EST), ("RealEmpiricalCovariance.transform", BASE)])
prop("C09", "Batch covariance estimation treats each trial independently",
     "Estimating the covariances of a batch of trials gives, in order, exactly what fitting the estimator on each trial alone gives, for any number of parallel jobs, any data type of the batch (real, integer or complex) and any extra fit arguments. Trials are not modified, permuting them permutes the results, and a second batch does not depend on the first.",
     ["inputs", "schedules", "histories", "configurations"], "all trial contents within bounds, 1-3 jobs, every estimator kind, two batches in a row",
     "tests compare shapes for one batch; aliasing of a shared estimator between trials and dtype truncation need value-level comparison over all contents",
     [BASE], [("CovariancesEstimation", BASE), ("_fit_transform_covariance_copy", BASE)])
prop("C10", "The feature container returns exactly what was appended, in order",
     "After any sequence of appends of single items and batches to a one- or several-component feature container, its length, shape, items, slices and exported data equal the concatenation of what was appended, in order. Data of the wrong shape or batch length are refused and leave the container unchanged, and later changes to the caller's buffers do not reach the stored items.",
     ["histories", "inputs"], "all histories of up to 4 appends (7 for growth) of items/batches, all indices, and symbolic contents",
     "tests use one append history with equal batch sizes; growth of the storage, mixed single/batch appends and rejected appends depend on the whole history",
     [BASE], [("_FeatureArray.append/__getitem__/export", BASE)])
prop("C11", "Vectorised features preserve content; feature estimation is per trial",
     "Vectorising a feature container keeps every independent entry of every item in a fixed order: whole matrices row by row, or the upper triangle when the items are (skew-)symmetric or Hermitian, so no information is lost. Estimating features of a batch equals estimating each trial alone, for every number of jobs and every interleaving of parallel workers.",
     ["inputs", "schedules", "histories"], "all item contents and sizes within bounds, 1-3 jobs, process and thread workers with preemption between fit and hand-over",
     "whether items are reduced depends on the values; races need a particular interleaving; tests only check shapes with one job",
     [BASE], [("_FeatureArray.vectorize", BASE), ("FeaturesEstimation", BASE), ("_feature_estimation", BASE)])
prop("C12", "Kronecker MM iterations are the published updates and scale free",
     "One step of the Kronecker-structured MM estimation from the identity maps the sample matrices to the geometric-mean updates of Sun, Babu and Palomar for the two factors (Hermitian positive definite, of the requested sizes), and further steps repeat that map; the estimate does not change when any sample is multiplied by a nonzero scalar. The fitted object exposes the two factors and their Kronecker product, uses its current parameters and refuses data whose dimension is not the product of the factor sizes.",
     ["inputs", "histories"], "all complex sample matrices within bounds (a,b <= 3, N <= 4 along arbitrary bases), 1-2 steps",
     "tests run one simulated data set to convergence and compare to a loose error; a conjugate or weight slip converges to something plausible",
     [STR], [("estimation_cov_kronecker_MM", STR), ("KroneckerEllipticalMM", STR)])
prop("C13", "Kronecker Student-t fit optimises its own likelihood consistently",
     "The Kronecker Student-t fit hands its optimiser the negative log-likelihood of the complex t model and exactly its derivative, and the Riemannian gradient followed represents that derivative in the optimiser's own metric. The start, the location and the fitted attributes (both factors and their Kronecker product as covariance) are those of the request and of the optimiser's answer.",
     ["inputs", "configurations"], "all data, factors, degrees of freedom within bounds (a,b <= 3)",
     "tests check only that the optimiser returns something of the right shape; a wrong gradient still decreases the cost",
     [STR, MAN], [("_generate_cost_function_kronecker_student", STR), ("_generate_egrad_function_kronecker_student", STR), ("KroneckerStudent", STR)])
prop("C14", "Scores are the log-likelihood of the fitted model",
     "Scoring new data with a fitted estimator returns the log-likelihood of those data under the model it fitted: the mean Gaussian log-likelihood (Tyler and empirical estimators) or the Student-t log-likelihood (Student and Kronecker Student estimators) with the fitted location, covariance and current degrees of freedom, real or complex. Scoring changes neither the model nor the data, and unknown models are refused.",
     ["inputs", "histories"], "all training and test data within bounds, all degrees of freedom",
     "tests only check that the score is a number",
     [EST, BASE, STR], [("score of the estimators", EST), ("ComplexEmpiricalCovariance.score", BASE), ("KroneckerStudent.score", STR)])
prop("C15", "Real/complex array mappings are exact inverse isometries",
     "Mapping a complex array to its stacked real form and back returns it unchanged and conversely, row by row, preserving norms. Real arrays with an odd number of columns cannot come from a complex array and are refused; inputs are not modified.",
     ["inputs"], "all arrays within the size bounds", "tests check one random array in one direction",
     [MAPS], [("arraytoreal / arraytocomplex", MAPS)])
prop("C16", "Real/complex covariance mappings are exact inverses and consistent",
     "The real form of a complex covariance is half the block matrix [[Re, -Im],[Im, Re]], i.e. the covariance of the stacked real vector of a circular complex one; mapping back returns the covariance unchanged, for single matrices and stacks. Positive definiteness, and quadratic forms up to the factor two, are preserved.",
     ["inputs"], "all Hermitian matrices within the size bounds and stacks of them", "tests check one random matrix",
     [MAPS], [("covariancetoreal / covariancetocomplex / plural versions", MAPS)])
prop("C17", "Covariance predicates decide Hermitian symmetry exactly",
     "The Hermitian check accepts a matrix exactly when every entry equals the conjugate of its mirror entry within the given relative and absolute tolerances, the symmetric check when it equals the plain mirror entry, and the covariance check accepts exactly the square two-dimensional arrays. One entry (real or imaginary part, diagonal included) beyond the tolerance is enough to be refused, wherever it is; the input is left untouched.",
     ["inputs", "configurations"], "all matrices within bounds, symbolic tolerances", "tests use one positive and one negative example",
     [MAPS], [("check_Hermitian / check_Symmetric / iscovariance", MAPS)])
prop("C18", "Complex normal distribution has the circular Gaussian density",
     "The complex normal log-density of x with mean m and covariance S is -p log pi - log det S - (x-m)^H S^-1 (x-m) for every input, its density the exponential of that, its entropy p log(pi e) + log det S. Frozen and unfrozen forms, defaults, scalars and stacked data agree; densities and distribution functions use the real form of the parameters.",
     ["inputs", "configurations"], "all x, means and covariances within bounds, every calling form", "tests compare with one library call on one input",
     [PROB], [("complex_multivariate_normal", PROB)])
prop("C19", "Complex t distribution has the complex t density",
     "The complex t log-density of x with location m, shape S and nu degrees of freedom is that of the stacked real vector under the real t with the real form of the shape, i.e. it depends on x through (x-m)^H S^-1 (x-m) as the complex t does, for every input; its density is the exponential of it. Frozen and unfrozen forms, defaults and stacked data agree.",
     ["inputs", "configurations"], "all x, locations, shapes, degrees of freedom within bounds, every calling form", "tests compare one value",
     [PROB], [("complex_multivariate_t", PROB)])
prop("C20", "Random draws of the complex distributions have the stated law",
     "A draw of the complex normal (resp. t) is an affine image of the underlying random numbers whose covariance structure is circular: mean m and covariance S (t: the same scaled by the chi-square mixing variable), for all parameters and sizes, frozen or not. The seed/random state given is the one used, and the sample shape is that requested (integer sizes).",
     ["inputs", "configurations"], "all underlying random numbers (symbolic draws), all parameters within bounds", "tests only check shapes of seeded draws or moments with large tolerances",
     [PROB], [("rvs", PROB)])
prop("C21", "Simulated data have the stated covariance and texture structure",
     "Data generators return for all underlying random numbers: normal samples = standard ones coloured by a square root of the covariance, compound samples = those scaled by the square root of the textures, low-rank-plus-noise samples with signal in the span of the given basis; complex standard samples have unit variance. Generated covariances are symmetric/Hermitian positive definite (unit determinant on request), generated bases orthonormal.",
     ["inputs", "configurations"], "all underlying random numbers (symbolic draws) and parameters within bounds", "sampling tests check shapes and seeded values only",
     [GEN], [("generate_* / sample_*", GEN)])
prop("C22", "Tyler's cost is the Tyler likelihood and scale invariant",
     "Tyler's cost of data X at shape Q is p sum_i log(x_i^H Q^-1 x_i) + N log det Q (up to the documented constant factor), invariant to rescaling Q and, up to a constant, the samples, and its stationary points are exactly Tyler's fixed points. Real and complex versions agree on real data, with both numerical back ends.",
     ["inputs"], "all data and positive definite Q within bounds", "tests evaluate one value",
     [COST], [("Tyler_cost_real / Tyler_cost_complex", COST)])
prop("C23", "Retractions stay on the manifold and are first-order exact",
     "Moving from any point along any tangent vector with the retraction of any of the package's manifolds gives a point of the manifold (positive vector, Hermitian positive definite matrix, unit determinant where required), equals the point itself for the zero vector, and has the tangent vector as its derivative at zero. It agrees with the exponential map to second order. Points and vectors passed in are left untouched.",
     ["inputs", "configurations"], "all points and tangent vectors within bounds (n <= 2, stacks k <= 2, products)", "tests check one random point with tolerances",
     [MAN], [("retr", MAN)])
prop("C24", "Riemannian gradients represent the derivative in the manifold's metric",
     "For every manifold of the package, converting a Euclidean gradient gives a tangent vector whose inner product with any tangent vector equals the Euclidean directional derivative. This holds for stacks of matrices and for weighted products and the Kronecker geometry.",
     ["inputs", "configurations"], "all points, gradients and tangent vectors within bounds", "tests only check shape or tangency",
     [MAN], [("egrad2rgrad", MAN)])
prop("C25", "Exponential and logarithm maps are mutually inverse geodesics",
     "For every manifold of the package, the exponential map of the logarithm of y at x is y and conversely, the exponential stays on the manifold, starts at x with the given velocity, and the distance to the endpoint is the norm of the vector.",
     ["inputs", "configurations"], "all points and tangent vectors (through their eigendecompositions) within bounds", "tests check one random pair with tolerances",
     [MAN], [("exp / log", MAN)])
prop("C26", "Inner products, norms and distances form a Riemannian structure",
     "Inner products are symmetric, bilinear and positive, norms are their square roots, and distances are symmetric, zero at equal points and affine/inversion invariant as the geometry requires; on stacks of matrices and on products they add up (weighted); for positive vectors they are taken per column.",
     ["inputs", "configurations"], "all points and vectors within bounds", "tests check one random point",
     [MAN], [("inner / norm / dist", MAN)])
prop("C27", "Vector transport maps tangent vectors isometrically to tangent vectors",
     "Transporting a tangent vector from x to y gives a tangent vector at y, linearly in the vector, returns it unchanged for y = x, preserves inner products, and is undone by transporting back; it is the parallel transport along the geodesic, so that it carries the geodesic's velocity to its velocity.",
     ["inputs", "configurations"], "all points and vectors within bounds", "tests check shape only",
     [MAN], [("transp", MAN)])
prop("C28", "Projections and random points and vectors lie where they should",
     "The projection onto the tangent space is idempotent, keeps tangent vectors and gives a tangent vector; except on the Kronecker manifold it is orthogonal for the metric. Random points lie on the manifold, random tangent vectors are tangent and of unit norm, the zero vector is the neutral tangent vector. The reported dimension equals the dimension of the tangent space.",
     ["inputs", "configurations"], "all points, ambient matrices and underlying random numbers within bounds", "tests check seeded draws",
     [MAN], [("proj / rand / randvec / zerovec / dim", MAN)])
prop("C29", "Riemannian Hessians are the covariant derivative of the gradient",
     "Where a manifold of the package offers a Hessian conversion, the result is a tangent vector and equals the covariant derivative of the Riemannian gradient field along the direction, so that it is symmetric in the metric, for all points, gradients and directions.",
     ["inputs"], "all points, Euclidean derivatives and directions within bounds", "no test evaluates it",
     [MAN], [("ehess2rhess", MAN)])
prop("C30", "Matrix functions satisfy their defining identities",
     "The matrix square root, inverse square root, power, logarithm and exponential of a Hermitian matrix (positive definite where needed) are Hermitian, act on the eigenvalues only, and satisfy sqrt(S)^2 = S, invsqrt(S) S invsqrt(S) = I, exp(log S) = S, S^a S^b = S^(a+b). Hermitian parts and conjugate transposes act on the last two axes, also of stacks. Inputs are left untouched.",
     ["inputs", "configurations"], "all Hermitian (positive definite) matrices through their eigendecompositions within bounds, all exponents, stacks, both back ends", "tests check one random matrix per function with tolerances",
     [LIN], [("sqrtm/invsqrtm/powm/logm/expm/multiherm", LIN)])
prop("C31", "Matrix vectorisations are inverse bijections; Toeplitz matrices are exact",
     "Vectorising a matrix stacks its columns, half-vectorising a Hermitian or symmetric matrix stacks the columns of its lower triangle, and the inverse operations return the same matrix, and conversely, for real, complex and integer data; both are linear. Toeplitz covariance models have entries rho^|i-j| (the conjugate above the diagonal) in the requested data type.",
     ["inputs"], "all matrices and vectors within bounds", "tests check one small real matrix",
     [LIN], [("vec/vech/unvec/unvech/ToeplitzMatrix", LIN)])
prop("C32", "Online gradient updates descend the cost along the manifold",
     "One online update moves the estimate to the retraction of minus the current learning rate times the Riemannian gradient of the batch at the estimate, and counts one iteration. The learning rate follows the chosen schedule, and covariance and precision always correspond to the current estimate.",
     ["inputs", "histories", "configurations"], "all estimates, batches, learning rates within bounds", "no test runs an update on arbitrary data",
     [ONL], [("StochasticGradientCovarianceEstimator.update", ONL)])
prop("C33", "Online fits process each batch once, in order, and restart cleanly",
     "An online fit equals updating with each sample in turn, once and in order. A fit given a start restarts from it with a fresh learning-rate schedule rather than continuing an earlier fit; a fit without one continues from the current estimate, as updates do. The count used by the schedule is the number of updates made, and separate estimators do not influence each other.",
     ["histories", "inputs"], "all histories of up to 4 updates/fits within bounds", "tests fit once",
     [ONL], [("StochasticGradientCovarianceEstimator.fit", ONL)])
prop("C34", "Seeding is local and argument validators accept exactly what they say",
     "Code run inside the temporary-seed context sees the seeded random stream, and the previous random state is restored afterwards, whether the code returns or raises, also when nested. The validators accept exactly positive (nonnegative) numbers, the accepted types and the accepted values, and raise otherwise.",
     ["inputs", "fault_sequences", "histories"], "all numbers, types, values; all nesting/exception sequences within bounds", "tests do not raise inside the context or probe boundary values",
     [MC, CHK], [("temp_seed", MC), ("check_positive/check_type/check_value", CHK)])
prop("C35", "Natural-gradient Tyler optimises Tyler's cost with its exact gradient",
     "The natural-gradient Tyler estimation gives its optimiser Tyler's cost of the data and its exact Euclidean gradient at every positive definite point, starts from the requested point (or none), and returns the optimiser's answer normalised as asked together with minus the cost there. For complex data the problem is posed on the real form of the covariance: its cost there is, up to a constant, four times the complex cost, it is unchanged when the plane is rotated by i, and start and answer are mapped forth and back.",
     ["inputs", "configurations"], "all data and points within bounds", "tests only run one optimisation to a loose tolerance",
     [EST, COST], [("tyler_shape_matrix_naturalgradient", EST), ("complex_tyler_shape_matrix_naturalgradient", EST), ("_generate_Tyler_egrad", EST)])

prop("C36", "Estimator parameters are complete, restorable and effective",
     "Every constructor parameter of every estimator can be read back unchanged, printed, cloned and set again, directly or through an enclosing estimator. Fitting an estimator whose parameters were set (by set_params, by assignment or by cloning) gives the same result as fitting one constructed with those parameters, whatever it was fitted with before. Fitting leaves the parameters as they are.",
     ["inputs", "histories", "configurations"], "all parameter values and data within bounds", "tests construct estimators once and never reparameterise them",
     [EST, BASE, STR, ONL], [("__init__/get_params/set_params", EST), ("KroneckerStudent/KroneckerEllipticalMM", STR), ("StochasticGradientCovarianceEstimator", ONL)])
prop("C37", "Progress reporting never changes what is computed",
     "Verbosity, log level and the display of the cost never change the estimate, the reported error, the number of iterations or the problem handed to the optimiser, for any algorithm or estimator. A progress bar over an iterable yields exactly its items, in order.",
     ["inputs", "configurations"], "all data, every combination of verbosity and log level within bounds", "tests run silently, or verbosely on one data set, never comparing the two",
     [EST, STR, ONL, VERB], [("fixed-point and MM algorithms", EST), ("logging_tqdm", VERB)])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from notes import NOTES, NA  # noqa: E402

TECH = ("symbolic execution of the Python functions over exact rational-"
        "function terms, goals discharged by z3, counterexamples replayed")


def main():
    checks, na = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[
                    dict(name=a, where=b) for a, b in p["mech"]])),
                ensure_ascii=False) + "\n")
            assert len(p["title"]) <= 80, p["id"]
            m = p["id"].lower()
            if os.path.exists(os.path.join(HERE, "checks", m + ".py")) and \
                    p["id"] not in NA:
                checks.append(dict(
                    property=p["id"],
                    quick_cmd="python3 run.py %s --quick" % m,
                    thorough_cmd="python3 run.py %s --thorough" % m,
                    technique=TECH, level="model_checking",
                    level_note=NOTES.get(p["id"], "") + (
                        "Holds for every value of the symbolic inputs within "
                        "the instance bounds listed in the evidence "
                        "(dimensions, numbers of samples and steps); exact "
                        "real arithmetic (no rounding), numpy/LAPACK "
                        "primitives by contract (DESIGN.md, Trusted base).")))
            else:
                na.append(dict(property=p["id"], reason=NA.get(
                    p["id"], "its check is not built yet")))
    json.dump(dict(
        version=1,
        setup_cmd="python3 run.py setup",
        checks=checks, not_applicable=na,
        notes="No hooks: the code under check is executed unmodified. Fixes "
              "are listed in known_findings.txt."),
        open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
