import json,os,re,glob
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
ORACLE={
'P01':'each function is evaluated on two vectors of free reals; the result term is compared with the textbook formula written over the same reals; non-negativity, symmetry and the identity of indiscernibles are separate obligations (polynomial normal form, then z3)',
'P02':'logarithms are uninterpreted terms with the tangent inequality and monotonicity instantiated at the arguments that occur; values equal the definitions, are finite (no 0*log 0, no division by 0) and non-negative where the definition is; eps smoothing included',
'P03':'free reals over the unit square, formulas with the documented smoothing; case split on the two prevalences being 0 or 1 and on squared/negative/positive variants',
'P04':'EMD, EMD score and the distance matrix against the L1 distance of cumulative sums written over the same reals; vectors, columns and matrices',
'P05':'labels are integer variables over the label set (so that every labelling, every absent class is one formula), Brier score over free probability rows, geometric mean of recalls through its own power',
'P06':'probability tables of free reals / label vectors of integer variables; result compared with counted frequencies (indicator sums), ties of the winning probability and the 0.5 threshold included',
'P07':'the same data through predictions handed in, through a fitted and through an unfitted estimator (table look-up stand-ins): same terms required; shapes (n,), (n,1), (n,k); float and crisp label columns',
'P08':'repeated predictions are handed to every quantifier that trains on them; the statistics of the fitted object are compared with those of the data written out with repeated labels',
'P09':'the binary corrected count as a rational function of the table; guarded where the two rates coincide; value clipped to [0, 1]',
'P10':'the confusion matrix is computed by the code, the solution is checked against the equation it must solve (adjugate form, no division), or against the posed problem for HD/L1/L2; singular systems give the uncorrected frequencies',
'P11':'closed form with the variance written out; clipping at 0 and 1',
'P12':'the sequence of priors is unrolled (2-4 steps) with the number of steps decided by the symbolic stopping condition; every iterate against the E and M steps written over the same reals; the division by the training priors and renormalisation are explicit',
'P13':'every strategy; symbolic values with quantile formulas written independently; the cut points are ascending, unbounded at both ends, and each value falls in exactly one bin (obligation on sums of indicators)',
'P14':'histograms of the prediction columns written as sums of indicators over free tables; the problem the solver receives is compared with the reference distance at a set of exact points of the simplex (see "posed problems")',
'P15':'same for every feature of free feature matrices with the cut points P13 describes',
'P16':'the problem posed to cvxpy/quadprog is captured as a symbolic function; feasible set = simplex is a z3 query over all points; objective equality up to a positive factor is decided at exact points for every data vector; re-use of a parametrised problem for further test vectors; the replay solves the real problem and compares the loss with that of 400+ simplex points',
'P17':'distance sums over free coordinates; quadratic problem captured as in P16; ranks for CvM as indicator sums; user-given distance functions',
'P18':'the loss is an arbitrary table of reals at the grid of visited points (uninterpreted function in the golden-section search), so the search is decided for every loss shape; unimodality is an assumption where the statement has it',
'P19':'weighted quantiles and weights for a free prevalence against the definition (first value at which the cumulative weight passes); symbolic scores and labels',
'P20':'union of scores sorted symbolically by path forking; area between the two step functions written directly; SORDy against the search result',
'P21':'exceedance rates as indicator sums with the training prevalence as threshold (equality included); posed problem as in P16',
'P22':'cumulative confusion columns and histograms of expected positions; EMD as L1 of cumulative histograms; winner-node scores',
'P23':'binary model outputs are free reals; class probabilities and the monotone correction (running max/min average) written out; argmax with ties',
'P24':'scores of the models are free reals, so every tree shape is reached by forking on the minimum; path products; the text of the tree is parsed and compared with the scores',
'P25':'pairwise outputs free; recursion over the DAG written independently; winner mode forks on each comparison (equality included)',
'P26':'member quantifiers answer free reals; cumulative correction and differences written out; the encodings passed to the members are compared',
'P27':'member quantifiers answer free reals; normalisation; label encodings, prediction columns and estimators passed to the members are compared',
'P28':'members answer arbitrary vectors of the simplex (free reals); mean, median, selection by rank written with indicator sums; the distribution similarity with histograms of free test sets',
'P29':'index matrices of free integers; each member must have received exactly the rows of its bag (also repeated and per-model predictions); classifiers are cloned per bag',
'P30':'the random generator is an arbitrary stream: every draw of randint/choice/dirichlet/uniform is a fresh variable within its documented range; reported prevalences equal the counts of the drawn labels, sizes and minimum prevalences hold for every stream; infeasible minimums are rejected',
'P31':'same for covariate-shift and mixed bags (weights of the draws are obligations, the drawn indexes are free)',
'P32':'two runs of the same object / of two objects against a fresh one: same terms or the same posed problem',
'P33':'snapshots of every argument (arrays, lists, labels, indexes) before the calls; element-wise identity after them, for every value',
'P34':'bags of free indexes; rows and targets handed to the regressor are compared with histograms written out; any output of the regressor; clipping and normalisation',
'P35':'labels of the neighbours are free (every labelling of the training examples), weights written out; prediction = weighted vote; the adjusted estimate from leave-one-out rates',
'P36':'splitters produce arbitrary folds; each example must be predicted by the model that has not seen it; any other data by all the models (mean or vote); integer, generator and splitter cv; groups',
'P37':'shape, bounds, sum and label order of the result of every family; for solver-based families the result is any point of the posed feasible set',
'P38':'the same data twice, reordered / relabelled; same terms, or the same problem up to the permutation',
'P41':'scaled values times the deviation (a root atom) against the centred values over free reals; the scaler of scikit-learn is re-implemented over terms; a text file with symbolic values is a registered table (the replay writes a real one)',
'P40':'two test sets (or training sets) of different sizes built from the same symbolic examples; same terms, or the same posed problem',
'P42':'objects with different histories (new, cloned, changed by set_params after use) on the same symbolic data: same terms, or the same posed problem; identity of every argument through get_params, clone and set_params',
'P43':'the result is the known composition; for posed problems the composition is feasible and no point of the simplex (symbolic) has a smaller objective',
'P39':'the drawing library is replaced by a recorder; the drawn segments are compared with the cumulative sums of the rows',
}
WHY={
}
out=[]
w=out.append
w('''# Design

Family of technique: solver-based checking of the real code. Every property of `properties.jsonl` is decided by
path-forking symbolic execution of the real Python sources of `/repo`; the deciding step is always z3 (after an exact
polynomial normalisation) over all values within the bounds. No property is under `not_applicable`.

Run one check: `bash run.sh P06 [--tier quick|thorough] [-v] [--only SUBSTRING] [--replay FILE] [-j N]`.
`tools/gen_properties.py`, `tools/gen_manifest.py` write `properties.jsonl` and `MANIFEST.json`;
`tools/mutate.py` and `tools/refactor.py` were used to look for holes and false alarms (see the end).

## 1. How the code is encoded

* **Source of the encoding.** `symq/loader.py` compiles the modules of the package from the working tree on every run
  (`QL_REPO` overrides `/repo` for experiments; registered commands do not set it) and executes them with replaced
  builtins and facades for `numpy`, `scipy`, `sklearn`, `cvxpy`, `quadprog`, `joblib`, `matplotlib`. Nothing of
  quantificationlib is modelled: its own functions run as written. `sys.monitoring` records which functions were
  executed; evidence lists them under `functions_encoded`.
* **Values.** `symq/core.py`: `SNum` is an exact rational or a z3 real/integer/boolean term. `symq/arr.py`: numpy arrays
  of such values with numpy's shape, broadcasting, indexing and axis rules (the real numpy does the index arithmetic on
  object arrays; every element operation is symbolic). Integers drawn from a finite set are integer variables.
* **Control flow.** A branch on a symbolic condition asks z3 for both sides and forks (depth first, by replaying the
  prefix of decisions); paths are enumerated until none is left, or the job is marked *not complete*. Loops are unrolled
  as executed; data-dependent loops end because the sizes are bounded, the iteration limits (`max_iter`, `tol`) are
  configuration.
* **Arithmetic.** Exact reals stand for binary64. `symq/poly.py` keeps a polynomial normal form over atoms (roots,
  logarithms, quotients, if-then-else, indicators), so that most equalities reduce to identity of normal forms and are then
  confirmed by z3; the rest are z3 queries (smt core, then nlsat). Square roots are atoms with `r*r = x, r >= 0`; roots of
  constants get exact rational interval bounds; logarithms are uninterpreted with monotonicity and tangent inequalities;
  `exp` likewise.
* **Library contracts** (`symq/stubs.py`). Deterministic numeric functions (histogram, cumsum, rankdata, confusion_matrix,
  cdist, pairwise distances, label binariser/encoder, one-vs-one, KNN with concrete positions, ...) are re-implemented over
  symbolic values and validated by the replays. Random generators are arbitrary streams: each draw is a fresh variable within its
  documented range. Quadratic and convex solvers: see posed problems. Eigenvalue and Cholesky based repair of indefinite matrices (`nearest_pd`) is
  executed with concrete matrices only. Regressors, classifiers and base quantifiers are stand-ins with arbitrary
  (symbolic) answers, because the properties hold for every learner.
* **Posed problems.** `cvxpy.Problem.solve` and `quadprog.solve_qp` record the problem as a symbolic function (objective
  and feasible set, parameters included); the solution is a fresh point of the feasible set. `e.minimises` requires that (1) the feasible
  set is exactly the simplex (z3 query over all points), (2) the objective equals a reference objective up to a positive factor
  and a constant, at 10-15 exact points of the simplex, enough for the quadratic and piecewise functions used, and for all data values, and
  (3) the solution is what is returned. A problem solved in closed form or by another formulation is judged the same way, because only the function posed counts.
* **Same result.** Two runs agree when their results are the same terms, or they return the solutions of problems that are equal as
  above (also up to a permutation of the classes).

## 2. When an alarm is raised

1. The solver refutes an obligation (or finds a path that ends in an exception the property does not allow).
2. A model of the path and the refuted obligation is turned into inputs (preferring *robust* ones: every decision and the violation itself hold with a margin,
   so that rounding cannot flip them) and **replayed on the really imported package** with the real numpy, cvxpy and quadprog, by the same
   harness function in a concrete environment. Only a violation that the real code reproduces is reported:
   `VIOLATION property=<id> replay=<file>`; `--replay FILE` runs it again.
3. Additionally up to 4 witness models per configuration (6 for unsupported paths, 10 for jobs cut short) are replayed to validate the encoding; a failure there is only
   believed when it is robust and larger than 1e-3 or an exception. Otherwise it is listed as *unconfirmed*.
4. `unknown`, `unsupported` (a construct the engine cannot encode) and budget cuts never alarm: they are counted in evidence
   (`complete: false`, undecided obligations, reasons) and the check says `(not all decided)`.

On the unchanged tree all quick checks decide 100 % of their obligations. Known findings: none; every defect found was repaired (section 5).
`known_findings.json` holds the `findings` (empty) and `fixed` lists; the runner prints `KNOWN-FINDING` for listed findings only and never writes the file.

Costs: all 43 quick checks together take about 10 minutes on 8 cores (2-55 s each; hard limit 150 s); a thorough check at most 840 s.

## 3. Properties

Every property is checked at level `model_checking` (bounded, all values). Bounds and what lies outside are in each `props/Pxx.py`
(`BOUNDS`, `OUTSIDE`), repeated in MANIFEST.json.
''')
for p in props:
    ns={}
    for l in open('%s/props/%s.py'%(V,p['id'])):
        if l.startswith(('BOUNDS','OUTSIDE')): exec(l,ns)
    src=open('%s/props/%s.py'%(V,p['id'])).read()
    hs=re.findall(r'^def (\w+)\(e[,)]', src, re.M)
    n=len(re.findall(r'^@harness', src, re.M))
    w('### %s %s\n' % (p['id'],p['title']))
    w('*Decided by:* %s.  ' % ORACLE[p['id']])
    w('*Bounds:* %s.  ' % ns['BOUNDS'])
    w('*Outside:* %s.\n' % ns['OUTSIDE'])
AFTER={'s12':'four classes added to P14','s13':'features whose values lie away from 0 added to P15','s26':'histograms with three bins added to P28',
'same':'', 's53':'training sets whose classes hardly differ added to P43', 's33':'second fit with other labels of the same shape added to P32','s36':'training sets whose leave-one-out rates differ (chains of neighbours) added to P35',
's38':'three-class energy and matching families added to P37'}
AFTER.update(json.load(open(V+'/tools/after.json')) if os.path.exists(V+'/tools/after.json') else {})
tail=open(V+'/tools/design_tail.md').read()
kf=json.load(open(V+'/known_findings.json'))
fixed='\n'.join('* %s %s - %s' % tuple(re.match(r'fixed: property=(\S+) (\S+) (.*)', l).groups()) for l in kf['fixed'])
rows=['| bug | caught by | needs | breaks | after |','|---|---|---|---|---|']
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[-2]
    rows.append('| %s | %s | %s | %s | %s |' % (i,m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/'),AFTER.get(i) or AFTER.get(i.split('-')[0],'')))
w(tail.replace('FIXED',fixed).replace('SEEDS','\n'.join(rows)).replace('MUTATION',open(V+'/tools/mutation.md').read().strip()))
open(V+'/DESIGN.md','w').write('\n'.join(out))
