#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo, on which the checks have to stay quiet.

    refactors.py DIR [NAME ...]

makes a copy of /repo in DIR/NAME for each; run a check on it with VERIF_REPO=DIR/NAME.
"""
import os, re, shutil, subprocess, sys

BASE = sys.argv[1]


def copy(name):
    d=f'{BASE}/{name}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(BASE, exist_ok=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    return d
class R:
    def __init__(self,name): self.d=copy(name)+'/src/frds/'
    def sub(self,f,old,new,count=1):
        p=self.d+f; s=open(p,newline='').read(); crlf='\r\n' in s
        s=s.replace('\r\n','\n')
        assert old in s,(f,old[:80])
        if count: assert s.count(old)==count,(f,old[:60],s.count(old))
        s=s.replace(old,new)
        if crlf: s=s.replace('\n','\r\n')
        open(p,'w',newline='').write(s)
    def cut(self,f,start,end,new):
        p=self.d+f; s=open(p,newline='').read(); crlf='\r\n' in s
        s=s.replace('\r\n','\n')
        i=s.index(start); j=s.index(end,i)
        s=s[:i]+new+s[j:]
        if crlf: s=s.replace('\n','\r\n')
        open(p,'w',newline='').write(s)
V={}
def variant(f): V[f.__name__]=f; return f
F='algorithms/isolation_forest/IsolationForest.cpp'; H='algorithms/isolation_forest/IsolationForest.hpp'; M='algorithms/isolation_forest/iforest_module.cpp'
@variant
def forest_helpers(r):
    r.sub(H,'  inline size_t textLength(const char *text);\n','''  inline size_t textLength(const char *text);
  bool goesLeft(DataType value, DataType split) const;
  int compareTexts(const char *a, const char *b);
  template <typename Start> void runOnWorkers(size_t total, Start start);
''')
    # growTree routing by helper
    r.cut(F,'      // NAN is set to be "smaller" than any value\n','    }\n\n    node =\n        std::make_unique<IsolationTree::Node>(attr, val','''      (this->goesLeft(obsVal, val) ? lobs : robs).push_back(i);
''')
    r.cut(F,'    const auto val_len = this->textLength(val);\n    for','    node = std::make_unique<IsolationTree::Node>(attr, NAN, val','''    for (size_t k = 0; k < nObs; k++) {
      const auto i = sample[k];
      auto obsVal = (CharDataType)PyArray_GETPTR2(this->char_data,
                                                  attr - this->n_num_attrs, i);
      auto &side = this->compareTexts(obsVal, val) < 0 ? lobs : robs;
      side.push_back(i);
    }

''')
    r.cut(F,'  if (node->isExNode) {','std::thread IsolationForest::grow(const','''  const IsolationTree::Node *at = node.get();
  while (!at->isExNode) {
    bool left;
    if (at->splitAttribute < this->n_num_attrs) {
      left = this->goesLeft(*(DataType *)PyArray_GETPTR2(
                                this->num_data, at->splitAttribute, ob),
                            at->splitValue);
    } else {
      auto val = (CharDataType)PyArray_GETPTR2(
          this->char_data, at->splitAttribute - this->n_num_attrs, ob);
      left = this->compareTexts(val, at->splitChar) < 0;
    }
    at = left ? at->lnode.get() : at->rnode.get();
    ++length;
  }
  return at->nObs > 1 ? length + this->averagePathLength(at->nObs)
                      : (double)length;
}

bool IsolationForest::goesLeft(DataType value, DataType split) const {
  if (isnan(value)) return true;
  return !isnan(split) && value < split;
}

int IsolationForest::compareTexts(const char *a, const char *b) {
  const auto la = this->textLength(a), lb = this->textLength(b);
  if (la != lb) return la < lb ? -1 : 1;
  return memcmp(a, b, la);
}

template <typename Start>
void IsolationForest::runOnWorkers(size_t total, Start start) {
  const size_t share = total / this->workers;
  std::vector<std::exception_ptr> errors(this->workers + 1);
  std::vector<std::thread> ts;
  ts.reserve(this->workers);
  PyThreadState *state = PyEval_SaveThread();
  try {
    for (size_t i = 0; i < this->workers; i++) {
      const size_t first = i * share;
      const size_t jobs = i + 1 < this->workers ? share : total - first;
      ts.emplace_back(start(first, jobs, errors[i]));
    }
  } catch (...) {
    errors[this->workers] = std::current_exception();
  }
  for (auto &t : ts) t.join();
  PyEval_RestoreThread(state);
  for (auto &error : errors)
    if (error) std::rethrow_exception(error);
}

''')
    r.cut(F,'void IsolationForest::grow() {','std::thread IsolationForest::calAnomalyScores','''void IsolationForest::grow() {
  this->runOnWorkers(this->forestSize,
                     [this](size_t first, size_t jobs,
                            std::exception_ptr &error) {
                       return this->grow(first, jobs, error);
                     });
}

''')
    s=open(r.d+F).read(); i=s.index('void IsolationForest::calculateAnomalyScores() {')
    s=s[:i]+'''void IsolationForest::calculateAnomalyScores() {
  this->runOnWorkers(this->nObs, [this](size_t first, size_t jobs,
                                        std::exception_ptr &) {
    return this->calAnomalyScores(first, jobs);
  });
}
'''
    open(r.d+F,'w').write(s)
@variant
def forest_striped(r):
    "trees dealt to workers in turn; rows summed tree by tree locally; sample partitioned in place"
    r.cut(F,'      for (size_t i = 0; i < this->workers; i++) {\n    auto first_tree','  } catch (...) {\n    errors.back()','''      for (size_t i = 0; i < this->workers; i++) {
    ts.push_back(this->grow(i, this->forestSize, errors[i]));
  }
''')
    r.sub(F,'for (size_t i = first_tree; i < first_tree + jobs; i++) {','for (size_t i = first_tree; i < jobs; i += this->workers) {')
    r.sub(F,'    std::vector<size_t> sample;\n    // Make','    // Make')
    r.sub(F,'      sample.clear();\n','      std::vector<size_t> sample;\n      sample.reserve(this->treeSize < this->nObs ? this->treeSize : this->nObs);\n')
    r.sub(F,'''  double avg = 0;
  for (auto &tree : this->trees) avg += this->pathLength(ob, tree->root);
  avg /= this->forestSize;
  return pow(2, -avg''','''  double total = 0;
  for (size_t i = 0; i < this->trees.size(); i++)
    total += this->pathLength(ob, this->trees[i]->root);
  const double avg = total / this->forestSize;
  return std::pow(2.0, -avg''')
    # module: RAII for references, memcpy to output
    r.sub(M,'  for (npy_intp i = 0; i < nObs; i++) {\n    *(double *)PyArray_GETPTR1(outArr, i) = iforest.anomalyScores[i];\n  }','  std::copy(iforest.anomalyScores.begin(), iforest.anomalyScores.begin() + nObs,\n            (double *)PyArray_DATA(outArr));')
    r.sub(M,'  Py_INCREF(Py_None);\n  return Py_None;','  Py_RETURN_NONE;')
    r.sub(M,'auto iforest =\n      IsolationForest(num_arr, char_arr, treeSize, forestSize, randomSeed);','auto iforest = std::make_unique<IsolationForest>(num_arr, char_arr, treeSize,\n                                                   forestSize, randomSeed);')
    r.sub(M,'iforest.grow();\n  iforest.calc','iforest->grow();\n  iforest->calc'); r.sub(M,'iforest.anomalyScores','iforest->anomalyScores',2)
    I='algorithms/isolation_forest/__init__.py'
    r.cut(I,'    exclude_cols = [] if','    # magic at work','''    kept = data.drop(columns=list(exclude_cols or []))
    char_data, num_data = _matrices(kept)
    # make an empty array to store calculated anomaly scores
    a_scores = np.zeros(len(kept), dtype=np.double)
''')
    r.sub(I,'index=obs, columns=[name])','index=kept.index, columns=[name])')
    r.sub(I,'def anomaly_scores(','''def _matrices(data):
    texts = data.select_dtypes(include=[object]).to_numpy(dtype=np.string_)
    numbers = data.select_dtypes(include=[np.number]).to_numpy(dtype=np.double)
    return texts.T, numbers.T


def anomaly_scores(''')
@variant
def forest_queue(r):
    "workers take trees from a shared counter; the calling thread joins via a guard"
    r.sub(H,'#include <algorithm>','#include <algorithm>\n#include <atomic>\n#include <mutex>')
    r.sub(H,'  std::vector<std::unique_ptr<IsolationTree>> trees;','  std::vector<std::unique_ptr<IsolationTree>> trees;\n  std::atomic<size_t> nextTree{0};\n  std::mutex errorMutex;')
    r.sub(F,'for (size_t i = first_tree; i < first_tree + jobs; i++) {','for (size_t i = this->nextTree++; i < this->forestSize; i = this->nextTree++) {')
    r.sub(F,'    error = std::current_exception();','    std::lock_guard<std::mutex> lock(this->errorMutex);\n    error = std::current_exception();')
G='algorithms/_garch.py'; MG='algorithms/_mgarch.py'
@variant
def garch_helpers(r):
    r.sub(G,'import threading\n','import threading\nfrom contextlib import contextmanager\n')
    r.sub(G,'warnings_lock = threading.RLock()\n','''warnings_lock = threading.RLock()


@contextmanager
def ignore_bounds_warnings():
    with warnings_lock, warnings.catch_warnings():
        warnings.filterwarnings(
            "ignore",
            "Values in x were outside bounds during a minimize step",
            RuntimeWarning,
        )
        yield
''')
    old='''with warnings_lock, warnings.catch_warnings():
            warnings.filterwarnings(
                "ignore",
                "Values in x were outside bounds during a minimize step",
                RuntimeWarning,
            )
'''
    r.sub(G,old,'with ignore_bounds_warnings():\n',2)
    r.sub(MG,old,'with ignore_bounds_warnings():\n',2)
    r.sub(MG,'from frds.algorithms._garch import warnings_lock','from frds.algorithms._garch import ignore_bounds_warnings, warnings_lock')
    r.sub(G,'''            if opt.success:
                # The optimizer's last evaluation need not be at the estimates
                self.loglikelihood_model(opt.x, self.backcast_value, self.var_bounds, self.zero_mean)
                if self.zero_mean:
                    self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
                else:
                    self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
                self.resids = self.returns - self.parameters.mu
                self.estimation_success = True

        return self.parameters
''','''            self._keep(opt)

        return self.parameters

    def _keep(self, opt: OptimizeResult) -> None:
        """Keeps the estimates of a successful optimization"""
        if not opt.success:
            return
        # The optimizer's last evaluation need not be at the estimates
        self.loglikelihood_model(
            opt.x, self.backcast_value, self.var_bounds, self.zero_mean
        )
        estimates = list(opt.x)
        if self.zero_mean:
            estimates.insert(0, 0.0)
        self.parameters = type(self).Parameters(*estimates, loglikelihood=-opt.fun)
        self.resids = self.returns - self.parameters.mu
        self.estimation_success = True
''')
    r.sub(G,'''            if opt.success:
                # The optimizer's last evaluation need not be at the estimates
                self.loglikelihood_model(opt.x, self.backcast_value, self.var_bounds, self.zero_mean)
                if self.zero_mean:
                    self.parameters = type(self).Parameters(
                        0.0, *list(opt.x), loglikelihood=-opt.fun
                    )
                else:
                    self.parameters = type(self).Parameters(
                        *list(opt.x), loglikelihood=-opt.fun
                    )
                self.resids = self.returns - self.parameters.mu
                self.estimation_success = True
''','            self._keep(opt)\n')
    r.sub(G,'''        for alpha, p in itertools.product(*[alpha_grid, persistence_grid]):
''','''        candidates = [(alpha, p) for alpha in alpha_grid for p in persistence_grid]
        for alpha, p in candidates:
''')
    r.sub(G,'''            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
            sigma2[t] = GARCHModel.bounds_check(sigma2[t], var_bounds[t])
        return sigma2
''','''            shock = resids[t - 1] ** 2
            variance = omega + alpha * shock + beta * sigma2[t - 1]
            sigma2[t] = GARCHModel.bounds_check(variance, var_bounds[t])
        return sigma2
''')
    # ccc
    r.sub(MG,'''                self.parameters = type(self).Parameters(*list(opt.x, ), loglikelihood=-opt.fun)
                self.estimation_success = True
''','''                estimates = dict(zip(asdict(self.parameters), opt.x))
                estimates["loglikelihood"] = -opt.fun
                self.parameters = type(self).Parameters(**estimates)
                self.estimation_success = True
''')
    r.sub(MG,'''                a, b = list(opt.x)
                self.parameters.a = a
                self.parameters.b = b
                self.parameters.loglikelihood=-opt.fun
                self.estimation_success = True
''','''                self._store(opt)
''')
    r.sub(MG,'''    def starting_values(self) -> Tuple[float, float]:
''','''    def _store(self, opt: OptimizeResult) -> None:
        self.parameters.loglikelihood = -opt.fun
        self.parameters.a, self.parameters.b = opt.x
        self.estimation_success = True

    def starting_values(self) -> Tuple[float, float]:
''')
    r.sub(MG,'''        for a, b in itertools.product(a_grid, b_grid):
            if a + b >= 1:
                continue
            ll = -self.loglikelihood_model([a, b])
            if ll > max_ll:
                initial_values = [a, b]
''','''        for a in a_grid:
            for b in b_grid:
                if not a + b < 1:
                    continue
                ll = -self.loglikelihood_model([a, b])
                if ll > max_ll:
                    initial_values = [a, b]
''')
    r.sub(MG,'''        m1, m2 = self.model1, self.model2
        m1.fit()
        m2.fit()
        if not (m1.estimation_success and m2.estimation_success):
            return self.parameters
''','''        m1, m2 = self.model1, self.model2
        for model in (m1, m2):
            model.fit()
        if not all(model.estimation_success for model in (m1, m2)):
            return self.parameters
''',2)
    r.sub(MG,'''        z1 = m1.resids / np.sqrt(m1.sigma2)
        z2 = m2.resids / np.sqrt(m2.sigma2)
        rho = np.corrcoef(z1, z2)[1, 0]
''','''        z1, z2 = (m.resids / np.sqrt(m.sigma2) for m in (m1, m2))
        rho = np.corrcoef(z1, z2)[1, 0]
''')
@variant
def garch_locals(r):
    "fit works on locals, then stores; single fit parametrised by subclass; python fallbacks vectorised a little"
    r.sub(G,'''                self.resids = self.returns - self.parameters.mu
                self.estimation_success = True
''','''                resids = self.returns - self.parameters.mu
                self.resids = resids
                self.estimation_success = bool(opt.success)
''',2)
    r.sub(G,'''        if self.estimation_success:
            return self.parameters

        starting_vals = self.preparation()
''','''        if not self.estimation_success:
            self._estimate()
        return self.parameters

    def _estimate(self) -> None:
        starting_vals = self.preparation()
''',2)
    r.sub(G,'''    def loglikelihood_model(
        self,
        params: np.ndarray,
        backcast: float,
        var_bounds: np.ndarray,
        zero_mean=False,
    ) -> float:''','''    def _objective(self, params):
        return self.loglikelihood_model(
            params, self.backcast_value, self.var_bounds, self.zero_mean
        )

    def loglikelihood_model(
        self,
        params: np.ndarray,
        backcast: float,
        var_bounds: np.ndarray,
        zero_mean=False,
    ) -> float:''')
    r.sub(G,'''                self.loglikelihood_model,
                starting_vals,
                args=(self.backcast_value, self.var_bounds, self.zero_mean),
''','''                self._objective,
                starting_vals,
''',2)
    r.sub(G,'''                self.loglikelihood_model(opt.x, self.backcast_value, self.var_bounds, self.zero_mean)
''','''                self._objective(opt.x)
''',2)
    r.sub(G,'''        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
        return np.sum(l)''','''        terms = np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2
        return (-0.5 * terms).sum()''')
    r.sub(G,'''        sigma2 = max(sigma2, lower)  # stays NaN, as in the C++ extension
        if sigma2 > upper:
            if not np.isinf(sigma2):
                sigma2 = upper + np.log(sigma2 / upper)
            else:
                sigma2 = upper + 1000
        return sigma2''','''        if sigma2 < lower:
            return lower
        if sigma2 <= upper or np.isnan(sigma2):
            return sigma2
        return upper + (1000 if np.isinf(sigma2) else np.log(sigma2 / upper))''')
    r.sub(G,'''        variance = np.empty(T)
        variance[0] = initial_value  # Set the initial value
        # Compute the squared residuals
        squared_resids = resids**2
        # Compute the EWMA using the decay factors and squared residuals
        for t in range(1, T):
            variance[t] = lam * variance[t - 1] + (1 - lam) * squared_resids[t - 1]
        return variance''','''        variance = [initial_value]
        for resid in resids[: T - 1]:
            variance.append(lam * variance[-1] + (1 - lam) * resid**2)
        return np.array(variance, dtype=np.float64)''')
    r.sub(MG,'''        q11 = np.empty_like(z1)
        q12 = np.empty_like(z1)
        q22 = np.empty_like(z1)
''','''        q11, q12, q22 = (np.empty(T) for _ in range(3))
''')
    r.sub(MG,'''        if USE_CPP_EXTENSION:
            return ext.dcc_conditional_correlation(
                a,
                b,
                self.model1.resids,
                self.model2.resids,
                self.model1.sigma2,
                self.model2.sigma2,
            )

        resids1 = self.model1.resids
        resids2 = self.model2.resids
        sigma2_1 = self.model1.sigma2
        sigma2_2 = self.model2.sigma2
''','''        resids1, resids2 = self.model1.resids, self.model2.resids
        sigma2_1, sigma2_2 = self.model1.sigma2, self.model2.sigma2

        if USE_CPP_EXTENSION:
            return ext.dcc_conditional_correlation(
                a, b, resids1, resids2, sigma2_1, sigma2_2
            )
''')
    r.sub(MG,'''        self.parameters = type(self).Parameters(*m1_params, *m2_params)
        starting_vals = [a, b]
''','''        starting_vals = [a, b]
''')
    r.sub(MG,'''                self.parameters.a = a
                self.parameters.b = b
                self.parameters.loglikelihood=-opt.fun
                self.estimation_success = True
''','''                self.parameters = type(self).Parameters(
                    *m1_params, *m2_params, a, b, -opt.fun
                )
                self.estimation_success = True
''')
U='algorithms/utils/utils_module.cpp'
@variant
def utils_helpers(r):
    blk=lambda n,: f'''  // Extract parameters
  std::vector<double> params;
  PyObject *iter = PyObject_GetIter(params_obj);
  if (iter == NULL) {{
    return NULL;
  }}
  PyObject *item;
  while ((item = PyIter_Next(iter))) {{
    params.push_back(PyFloat_AsDouble(item));
    Py_DECREF(item);
  }}
  Py_DECREF(iter);
  if (PyErr_Occurred()) {{
    return NULL;
  }}
  if (params.size() != {n}) {{
    PyErr_SetString(PyExc_ValueError, "Expected {n} parameters");
    return NULL;
  }}

  // Construct the output array
  int T = PyArray_DIM(resids_in, 0);
  npy_intp dims[1] = {{T}};
  PyObject *sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
  if (sigma2_out == NULL) {{
    return NULL;
  }}
'''
    for n in (3,4):
        r.sub(U,blk(n),f'''  std::vector<double> params;
  if (!read_parameters(params_obj, {n}, params)) return NULL;
  const int T = (int)PyArray_SIZE(resids_in);
  PyObject *sigma2_out = new_series(T);
  if (!sigma2_out) return NULL;
''')
    r.sub(U,'// The wrapper function to be called from Python\nstatic PyObject *ewma_wrapper','''// A reference given back when it goes out of scope
class Reference {
  PyObject *object;

 public:
  explicit Reference(PyObject *object) : object(object) {}
  ~Reference() { Py_XDECREF(object); }
  Reference(const Reference &) = delete;
  PyObject *get() const { return object; }
};

static bool read_parameters(PyObject *source, size_t expected,
                            std::vector<double> &params) {
  Reference iter(PyObject_GetIter(source));
  if (!iter.get()) return false;
  params.reserve(expected);
  for (;;) {
    Reference item(PyIter_Next(iter.get()));
    if (!item.get()) break;
    params.push_back(PyFloat_AsDouble(item.get()));
  }
  if (PyErr_Occurred()) return false;
  if (params.size() == expected) return true;
  PyErr_Format(PyExc_ValueError, "Expected %zu parameters", expected);
  return false;
}

static PyObject *new_series(npy_intp length) {
  return PyArray_SimpleNew(1, &length, NPY_DOUBLE);
}

// The wrapper function to be called from Python
static PyObject *ewma_wrapper''')
    r.sub(U,'''  npy_intp dims[1] = {static_cast<npy_intp>(rho.size())};
  PyArrayObject *py_rho =
      (PyArrayObject *)PyArray_SimpleNew(1, dims, NPY_DOUBLE);
  if (py_rho == NULL) {
    return NULL;
  }
  std::copy(rho.begin(), rho.end(), (double *)PyArray_DATA(py_rho));

  return (PyObject *)py_rho;''','''  PyObject *py_rho = new_series(rho.size());
  if (py_rho != NULL) {
    auto *out = (double *)PyArray_DATA((PyArrayObject *)py_rho);
    for (size_t t = 0; t < rho.size(); t++) out[t] = rho[t];
  }
  return py_rho;''')
    L='measures/lrmes.hpp'
    r.cut(L,'  // Initialize vectors to hold firm and market returns','  double epsilon_i','''  const npy_intp horizon = PyArray_DIM(innovation, 0);
  // Sums of firm and market returns
  double firm_sum = 0.0, mkt_sum = 0.0;

''')
    r.sub(L,'for (int h = 0; h < PyArray_DIM(innovation, 0); ++h) {','for (npy_intp h = 0; h < horizon; ++h) {')
    r.sub(L,'    mkt_return[h] = mu_m + epsilon_m;\n    firm_return[h] = mu_i + epsilon_i;','    mkt_sum += (mu_m + epsilon_m) / 100;\n    firm_sum += (mu_i + epsilon_i) / 100;')
    r.cut(L,'  // Convert back to original scale','  systemic_event = std::exp','')
    r.cut(L,'  // Calculate firm return over the horizon','  firmret =','')
P='measures/_probability_of_informed_trading.py'
@variant
def pin_collect(r):
    r.cut(P,'        # fmt: off\n        with np.errstate(all="ignore"):','        self.parameters = best','''        fits = []
        with np.errstate(all="ignore"):
            for starting_vals in list(self.init_params_grid_search()):
                opt = minimize(func, starting_vals, method="L-BFGS-B", bounds=bounds)
                if opt.success:
                    fits.append((-opt.fun, opt.x))
        for loglikelihood, x in fits:
            if not np.isnan(best.loglikelihood) and not (
                best.loglikelihood < loglikelihood < np.inf
            ):
                continue
            best = self._parameters(x, loglikelihood, method)
''')
    r.sub(P,'    def init_params_grid_search','''    def _parameters(self, x, loglikelihood, method):
        parameters = type(self).Parameters(*x, loglikelihood=loglikelihood)
        parameters.calculate_pin()
        parameters.method = method
        return parameters

    def init_params_grid_search''')
    r.cut(P,'        grid = [0.1, 0.3','    def loglikelihood_EHO2010','''        grid = [0.1, 0.3, 0.5, 0.7, 0.9]
        B_bar, S_bar = np.average(self.B), np.average(self.S)
        for alpha in grid:
            for delta in grid:
                for gamma in grid:
                    eB = gamma * B_bar
                    mu = (B_bar - eB) / (alpha * (1 - delta))
                    eS = S_bar - alpha * delta * mu
                    if eS >= 0:
                        yield (alpha, delta, eB, eS, mu)

''')
    r.cut(P,'        if method == "EHO2010":\n            func','        fits','''        func = {
            "EHO2010": self.loglikelihood_EHO2010,
            "LK2011": self.loglikelihood_LK2011,
        }[method]

''')
D='measures/_distress_insurance_premium.py'
@variant
def dip_vector(r):
    r.cut(D,'        prob_losses = np.zeros(n_banks','        # Convert to probabilities','''        prob_losses = np.zeros(n_banks * intervals + 1)
        slots = np.ceil(loss_given_default).astype(int)
        for i in range(n_banks):
            np.add.at(prob_losses, slots[i], dist_joint_defaults[i + 1])

''')
    r.sub(D,'np.array(range(pct_threshold * n_banks, intervals * n_banks + 1))','np.arange(pct_threshold * n_banks, intervals * n_banks + 1)')
    r.cut(D,'        # Simulate correlated normal','        default_dist =','''        defaults = self._count_defaults(rng, n_banks, n_simulated_returns)
''')
    r.sub(D,'        default_dist = np.sum(z < default_thresholds, axis=1)\n','')
    r.sub(D,'np.bincount(default_dist, minlength','np.bincount(defaults, minlength')
    s=open(r.d+D).read()
    s+='''
    def _count_defaults(self, rng, n_banks, n_simulated_returns) -> np.ndarray:
        """The number of banks in default in each simulation"""
        inverse = NormalDist().inv_cdf
        thresholds = np.array(
            [inverse(p) for p in self.default_prob], dtype=self.default_prob.dtype
        )
        z = rng.normal(0, 1, size=(n_simulated_returns, n_banks)) @ np.linalg.cholesky(
            self.correlations
        ).T
        return (z < thresholds).sum(axis=1)
'''
    open(r.d+D,'w').write(s)
L='measures/_long_run_mes.py'; SR='measures/_srisk.py'
@variant
def lrmes_helpers(r):
    s=open(r.d+L).read()
    i=s.index('        sample = np.array([xi_i, z_m])'); j=s.index('        Q_bar = np.corrcoef(z_i, z_m)')
    s=s[:i]+'''        sample = self._draw(rng, xi_i, z_m, S, h)

'''+s[j:]
    i=s.index('            firm_avg_return += firm_return'); j=s.index('    def simulation(')
    s=s[:i]+'''            total += firm_return
            events += int(systemic_event)

        return -total / events if events else 0.0

    @staticmethod
    def _draw(rng, xi_i, z_m, S, h):
        """Innovations sampled with replacement"""
        pairs = np.column_stack([xi_i, z_m])
        return np.stack(
            [pairs[rng.choice(len(pairs), size=h, replace=True)] for _ in range(S)]
        ) if S else np.zeros((0, h, 2))

'''+s[j:]
    s=s.replace('        firm_avg_return = 0.0\n        n_systemic_event = 0\n        for s in range(S):\n            # Each simulation\n            inv = sample[s, :, :]  # shape=(h,2)\n','        total, events = 0.0, 0\n        for inv in sample:\n')
    s=s.replace('        self.firm_returns = np.log(1 + np.asarray(firm_returns, dtype=np.float64))\n        self.market_returns = np.log(1 + np.asarray(market_returns, dtype=np.float64))\n','        self.firm_returns, self.market_returns = (\n            np.log(1 + np.asarray(x, dtype=np.float64))\n            for x in (firm_returns, market_returns)\n        )\n')
    s=s.replace('        self.firm_returns *= 100\n        self.market_returns *= 100\n','        self.firm_returns = self.firm_returns * 100\n        self.market_returns = self.market_returns * 100\n')
    open(r.d+L,'w').write(s)
    r.cut(SR,'        if self.n_firms == 1:\n            lrmes','        lvg =','''        args = (lrmes_h, lrmes_S, lrmes_C, lrmes_random_seed)
        if self.n_firms == 1:
            lrmes = self._lrmes(self.firm_returns, args)
        else:
            lrmes = np.array([self._lrmes(r, args) for r in self.firm_returns.T])

''')
    r.cut(SR,'        if not aggregate_srisk:\n            return srisk','zzz' if False else '            return np.sum(np','''        if aggregate_srisk:
''')
    s=open(r.d+SR).read()
    s=s.rstrip('\n')+'''
        return srisk

    def _lrmes(self, firm_returns, args):
        measure = LongRunMarginalExpectedShortfall(firm_returns, self.market_returns)
        return measure.estimate(*args)
'''
    s=s.replace('        market_returns = self.market_returns\n\n','')
    open(r.d+SR,'w').write(s)
ST='datasets/_stocks.py'
@variant
def stocks_lock(r):
    s=open(r.d+ST).read()
    i=s.index('        # fmt: off'); j=s.index('StockReturns =')
    s=s[:i]+'''        if self._stocks_us is None:
            with _lock:
                if self._stocks_us is None:
                    self._stocks_us = _read("stocks_us.csv.zip")
        return self._stocks_us


def _read(name):
    with open(os.path.join(_current_directory, name), "rb") as f:
        return pd.read_csv(
            f, index_col=["Date"], parse_dates=["Date"], compression="zip"
        )


'''+s[j:]
    s=s.replace('import os\n','import os\nimport threading\n').replace('_current_directory = os.path.dirname(_current_file_path)\n','_current_directory = os.path.dirname(_current_file_path)\n_lock = threading.Lock()\n')
    open(r.d+ST,'w').write(s)
@variant
def stocks_cache(r):
    s=open(r.d+ST).read()
    i=s.index('        # fmt: off'); j=s.index('StockReturns =')
    s=s[:i]+'''        return _load()


@functools.lru_cache(maxsize=None)
def _load() -> pd.DataFrame:
    path = pathlib.Path(__file__).resolve().parent / "stocks_us.csv.zip"
    with zipfile.ZipFile(path) as archive:
        (name,) = archive.namelist()
        text = archive.read(name).decode()
    data = pd.read_csv(io.StringIO(text))
    data["Date"] = pd.to_datetime(data["Date"])
    return data.set_index("Date")


'''+s[j:]
    s=s.replace('import os\n','import functools\nimport io\nimport os\nimport pathlib\nimport zipfile\n')
    open(r.d+ST,'w').write(s)
MS='measures/modified_merton/mod_merton_simulation.py'
@variant
def figures_helper(r):
    s=open(r.d+MS).read()
    s=s.replace('plt.savefig(os.path.join(direc, ','_save(direc, (')
    import re as _re
    s=s.replace('_save(direc, ("figure2_PayoffsAtDMat.pdf"), format="pdf")','_save(direc, "figure2_PayoffsAtDMat.pdf", format="pdf")')
    s=_re.sub(r'_save\(direc, \(("[^"]+")\), bbox',r'_save(direc, \1, bbox',s)
    s=s.replace('plt.savefig(\n        os.path.join(direc, "','_save(direc, "',)
    s=_re.sub(r'_save\(direc, ("[^"]+")\), bbox_inches="tight"\s*\)',r'_save(direc, \1, bbox_inches="tight")',s)
    i=s.index('def simulate(')
    s=s[:i]+'''def _save(directory, name, **options):
    """Saves the current figure under its name once it is complete"""
    path = os.path.join(directory, name)
    plt.gcf().savefig(path, **options)


'''+s[i:]
    s=s.replace('    for k in range(K):\n        A = Lt[k]\n        s = sigLt[k]\n','    for k, (A, s) in enumerate(zip(Lt, sigLt)):\n')
    open(r.d+MS,'w').write(s)
@variant
def figures_buffer(r):
    figures_helper(r)
    r.sub(MS,'''    path = os.path.join(directory, name)
    plt.gcf().savefig(path, **options)
''','''    options.setdefault("format", "pdf")
    buffer = io.BytesIO()
    plt.savefig(buffer, **options)
    with open(os.path.join(directory, name), "wb") as f:
        f.write(buffer.getvalue())
''')
    r.sub(MS,'import warnings  #','import io\nimport warnings  #')
@variant
def figures_replace(r):
    figures_helper(r)
    r.sub(MS,'''    path = os.path.join(directory, name)
    plt.gcf().savefig(path, **options)
''','''    path = os.path.join(directory, name)
    partial = path + ".part"
    options.setdefault("format", "pdf")
    try:
        plt.savefig(partial, **options)
        os.replace(partial, path)
    except BaseException:
        try:
            os.remove(partial)
        except OSError:
            pass
        raise
''')
SP='measures/spread.py'
@variant
def measures_helpers(r):
    r.sub(SP,'''    dollar_volume = volume * price
    if all(dollar_volume == 0):
        return np.nanmean(spread)
    return np.average(spread, weights=dollar_volume)
''','''    return _dollar_volume_weighted(spread, volume, price)
''',2)
    s=open(r.d+SP).read()
    s=s.replace('def effective_spread(','''def _dollar_volume_weighted(values, volume, price):
    weights = volume * price
    if not np.any(weights != 0):
        return np.nanmean(values)
    return np.average(values, weights=weights)


def effective_spread(''')
    open(r.d+SP,'w').write(s)
    A='measures/_absorption_ratio.py'
    r.sub(A,'        eig_sorted = sorted(self.eigvals)\n','        covariance = self.asset_covariance\n        eig_sorted = sorted(self.eigvals, reverse=True)\n')
    r.sub(A,'sum(eig_sorted[len(eig_sorted) - num_eigenvalues :]) / np.trace(self.asset_covariance)','sum(reversed(eig_sorted[:num_eigenvalues])) / np.trace(covariance)')
    C='measures/_contingent_claim_analysis.py'
    r.sub(C,'''        debt = default_barrier * exp(-risk_free_rate * time_to_maturity) - put_price
''','''        discount = exp(-risk_free_rate * time_to_maturity)
        debt = default_barrier * discount - put_price
''')
    r.sub(C,'        def cca_func(x, e, vol, rf, d, t):','        def equations(x, e, vol, rf, d, t):'); r.sub(C,'            cca_func,\n','            equations,\n')
    S='measures/_systemic_expected_shortfall.py'
    r.sub(S,'        data = np.vstack([np.ones(n_firms), self.mes, self.lvg]).T\n','        data = np.column_stack([np.ones(n_firms), self.mes, self.lvg])\n')
    ME='measures/_marginal_expected_shortfall.py'
    r.sub(ME,'        worst_days = np.argwhere(self.market_returns < low_threshold)\n        return np.mean(self.firm_returns[worst_days])','        worst_days = self.market_returns < low_threshold\n        return self.firm_returns[worst_days].mean()')
    K='measures/_kyle_lambda.py'
    r.sub(K,'    a, _, _, _ = np.linalg.lstsq(x, y, rcond=None)\n    return a[0] * 1_000_000','    solution = np.linalg.lstsq(x, y, rcond=None)\n    slope = solution[0][0]\n    return slope * 1_000_000')



WITH='        with warnings_lock, warnings.catch_warnings():\n            warnings.filterwarnings(\n                "ignore",\n                "Values in x were outside bounds during a minimize step",\n                RuntimeWarning,\n            )\n'
G='algorithms/_garch.py'; MG='algorithms/_mgarch.py'


def contexts(r, helper, use):
    r.sub(G,'\nclass GARCHModel:','\n'+helper+'\n\nclass GARCHModel:')
    r.sub(MG,'from frds.algorithms._garch import warnings_lock','from frds.algorithms._garch import quiet_minimise')
    for f in (G,MG): r.sub(f,WITH,use,2)


@variant
def garch_contextmanager(r):
    contexts(r,"""@contextlib.contextmanager
def quiet_minimise():
    with warnings_lock, warnings.catch_warnings():
        warnings.filterwarnings(
            "ignore",
            "Values in x were outside bounds during a minimize step",
            RuntimeWarning,
        )
        yield

""",'        with quiet_minimise():\n')
    r.sub(G,'import warnings\n','import contextlib\nimport warnings\n')


@variant
def garch_contextclass(r):
    contexts(r,"""class quiet_minimise:
    def __enter__(self):
        warnings_lock.acquire()
        self._context = warnings.catch_warnings()
        self._context.__enter__()
        warnings.filterwarnings(
            "ignore",
            "Values in x were outside bounds during a minimize step",
            RuntimeWarning,
        )
        return self

    def __exit__(self, *exc):
        self._context.__exit__(*exc)
        warnings_lock.release()
        return False

""",'        with quiet_minimise():\n')


@variant
def garch_nested_with(r):
    contexts(r,"""def quiet_minimise(*args, **kwargs) -> OptimizeResult:
    with warnings_lock:
        with warnings.catch_warnings():
            warnings.filterwarnings(
                "ignore",
                "Values in x were outside bounds during a minimize step",
                RuntimeWarning,
            )
            return minimize(*args, **kwargs)

""",'        if True:\n')
    for f in (G,MG): r.sub(f,'opt: OptimizeResult = minimize(','opt: OptimizeResult = quiet_minimise(',2)


@variant
def pin_seterr(r):
    P='measures/_probability_of_informed_trading.py'
    r.sub(P,'        with np.errstate(all="ignore"):\n','        old = np.seterr(all="ignore")\n        try:\n')
    r.sub(P,'        self.parameters = best\n        self.est','        finally:\n            np.seterr(**old)\n        self.parameters = best\n        self.est')


@variant
def merton_exitstack(r):
    S='measures/modified_merton/mod_merton_simulation.py'
    r.sub(S,'    with warnings_lock, warnings.catch_warnings():\n','    with contextlib.ExitStack() as stack:\n        stack.enter_context(warnings_lock)\n        stack.enter_context(warnings.catch_warnings())\n')
    r.sub(S,'from frds.algorithms._garch import warnings_lock\n','from frds.algorithms._garch import warnings_lock\nimport contextlib\n')


if __name__ == "__main__":
    for n in sys.argv[2:] or V:
        V[n](R(n))
        print(n)
