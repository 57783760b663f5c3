// C09: covariance reports name and quantify the right parameters, whatever history, size and memory layout
#include "est.h"
#include "../core/baton.h"
#include <ceres/ceres.h>
#include <rct_optimizations/covariance_analysis.h>
using namespace sim;
using namespace world;
namespace
{
const int DIRECT = est::KINDS, TABLE = est::KINDS + 1;

void gen(Rng& r, Plan& p, int tier)
{
  est::Opt o;
  o.guessAng = 0.06, o.guessTrans = 0.03, o.wild = 0, o.corrupt = 0, o.noiseMax = 1, o.below = true, o.lost = 0.01;
  static const int K[] = { est::HE2, est::HE3, est::MSC, est::MSC, est::PNP2, est::PNP3, est::CIRCLE, est::INTR, est::DH2, est::DH6, DIRECT, DIRECT, DIRECT, TABLE };
  int k = K[r.range(0, (int)(sizeof(K) / sizeof(K[0])) - 1)];
  if (k == DIRECT || k == TABLE)
    p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("kind", k);
  else
    est::gen(r, p, o, k);
  p.add("heap", true).set("layout", r.chance(0.1) ? 0ul : (unsigned long)(r.u64() >> 24));
  p.add("threshold").set("at", r.chance(0.2) ? 0.0 : r.chance(0.1) ? r.uni(1, 2) : r.uni(0, 1)).set("seed", (unsigned long)(r.u64() >> 24));
}

// the form of a report: everything in it belongs together
void form(Ctx& ctx, const Plan& p, const rct::CovarianceResult& c, const std::string& what)
{
  std::size_t n = c.standard_deviations.size();
  ctx.check(c.covariances.size() == n * (n - (n > 0)) / 2 && c.correlation_coeffs.size() == c.covariances.size(), "pairs",
            fmt("%zu parameters but %zu covariances and %zu correlations; ", n, c.covariances.size(), c.correlation_coeffs.size()) + what);
  ctx.check((std::size_t)c.covariance_matrix.rows() == n && (std::size_t)c.covariance_matrix.cols() == n && (std::size_t)c.correlation_matrix.rows() == n && (std::size_t)c.correlation_matrix.cols() == n,
            "matrix-size", what);
  std::map<std::string, int> at;
  for (std::size_t i = 0; i < n; ++i)
  {
    ctx.check(!at.count(c.standard_deviations[i].names.first), "name-twice", c.standard_deviations[i].names.first + "; " + what);
    at[c.standard_deviations[i].names.first] = (int)i;
  }
  std::set<std::pair<int, int>> seen;
  for (std::size_t k = 0; k < c.covariances.size(); ++k)
    for (int which = 0; which < 2; ++which)
    {
      const rct::NamedParam& q = which ? c.correlation_coeffs[k] : c.covariances[k];
      ctx.check(at.count(q.names.first) && at.count(q.names.second), "unknown-name", q.names.first + " / " + q.names.second + "; " + what);
      int i = at[q.names.first], j = at[q.names.second];
      ctx.check(i != j, "pair-with-itself", q.names.first + "; " + what);
      if (!which)
        ctx.check(seen.insert({ std::min(i, j), std::max(i, j) }).second, "pair-twice", q.names.first + " / " + q.names.second + "; " + what);
      else
        ctx.check(seen.count({ std::min(i, j), std::max(i, j) }) || k + 1 < c.covariances.size(), "pair-missing", what);
      double m = which ? c.correlation_matrix(i, j) : c.covariance_matrix(i, j);
      ctx.check(std::isnan(m) ? std::isnan(q.value) : q.value == m, "matrix-and-list", fmt("%s / %s is %.9g in the list but %.9g in the matrix; ", q.names.first.c_str(), q.names.second.c_str(), q.value, m) + what);
      if (which && std::isfinite(q.value))
        ctx.check(std::abs(q.value) <= 1 + 1e-7, "correlation-above-one", fmt("%s / %s: %.12g; ", q.names.first.c_str(), q.names.second.c_str(), q.value) + what);
    }
  for (std::size_t i = 0; i < n; ++i)
  {
    double s = c.standard_deviations[i].value, v = c.covariance_matrix(i, i);
    ctx.check(s >= 0 && std::abs(s * s - v) <= 1e-9 * std::abs(v), "std-dev", fmt("%s: standard deviation %.9g, variance %.9g; ", c.standard_deviations[i].names.first.c_str(), s, v) + what);
    for (std::size_t j = 0; j < n; ++j)
      if (i != j)
      {
        double sj = c.standard_deviations[j].value, d = s * sj, cc = c.correlation_matrix(i, j);
        if (s > 1e-12 && sj > 1e-12)
          ctx.check(std::abs(cc * d - c.covariance_matrix(i, j)) <= 1e-9 * d, "correlation", what);
        else if (s == 0 || sj == 0)
          ctx.check(cc == 0, "correlation-without-variance", what);
      }
  }
  // what exceeds a threshold
  const Item& t = p.need("threshold");
  Rng r((uint64_t)t.i("seed"), "threshold");
  for (int k = 0; k < 3; ++k)
  {
    double lim = k == 0 ? t.d("at") : k == 1 && !c.correlation_coeffs.empty() ? std::abs(c.correlation_coeffs[r.range(0, (int)c.correlation_coeffs.size() - 1)].value) : r.u01();
    auto got = c.getCorrelationCoeffOutsideThreshold(lim);
    std::multiset<std::tuple<std::string, std::string, double>> a, b;
    for (auto& q : c.correlation_coeffs)
      if (std::abs(q.value) > lim)
        a.insert({ q.names.first, q.names.second, q.value });
    for (auto& q : got)
      b.insert({ q.names.first, q.names.second, q.value });
    ctx.check(a == b, "threshold", fmt("%zu of %zu correlations exceed %.17g but %zu are returned; ", a.size(), c.correlation_coeffs.size(), lim, b.size()) + what);
    std::string text = c.printCorrelationCoeffAboveThreshold(lim);
    long lines = std::count(text.begin(), text.end(), '\n');
    ctx.check(a.empty() ? lines == 1 : lines == (long)a.size() + 2, "threshold-text", fmt("%ld lines for %zu entries; ", lines, a.size()) + what);
    for (auto& q : a)
      ctx.check(text.find(std::get<0>(q) + " " + std::get<1>(q) + " ") != std::string::npos, "threshold-text", std::get<0>(q) + "; " + what);
  }
}

// reference: the inverse of the information matrix, parameters scaled to unit information first
bool inverseInformation(const MatrixXd& J, MatrixXd& cov, double& cond)
{
  cond = conditioning(J);
  if (!(cond > 0))
    return false;
  VectorXd s(J.cols());
  MatrixXd A = J;
  for (int k = 0; k < J.cols(); ++k)
    s[k] = A.col(k).norm(), A.col(k) /= s[k];
  Eigen::HouseholderQR<MatrixXd> qr(A);
  MatrixXd R = qr.matrixQR().topRows(A.cols()).triangularView<Eigen::Upper>();
  MatrixXd Ri = R.triangularView<Eigen::Upper>().solve(MatrixXd::Identity(A.cols(), A.cols()));
  cov = s.cwiseInverse().asDiagonal() * (Ri * Ri.transpose()) * s.cwiseInverse().asDiagonal();
  return cov.allFinite();
}

// the values of a report against the reference, by name
void values(Ctx& ctx, const rct::CovarianceResult& c, const std::vector<std::string>& names, const MatrixXd& ref, double tol, const std::string& what)
{
  std::map<std::string, int> at;
  for (std::size_t i = 0; i < names.size(); ++i)
    at[names[i]] = (int)i;
  double worst = 0;
  for (auto& q : c.standard_deviations)
  {
    int i = at[q.names.first];
    double s = std::sqrt(ref(i, i));
    ctx.check(std::abs(q.value - s) <= tol * s, "std-dev-value", fmt("%s has a standard deviation of %.9g, reported as %.9g; ", q.names.first.c_str(), s, q.value) + what);
    if (s > 0)
      worst = std::max(worst, std::abs(q.value - s) / s);
  }
  for (auto& q : c.covariances)
  {
    int i = at[q.names.first], j = at[q.names.second];
    double d = std::sqrt(ref(i, i) * ref(j, j));
    ctx.check(std::abs(q.value - ref(i, j)) <= tol * d, "covariance-value", fmt("covariance of %s and %s is %.9g, reported as %.9g; ", q.names.first.c_str(), q.names.second.c_str(), ref(i, j), q.value) + what);
  }
  for (auto& q : c.correlation_coeffs)
  {
    int i = at[q.names.first], j = at[q.names.second];
    double d = std::sqrt(ref(i, i) * ref(j, j)), cc = d > 0 ? ref(i, j) / d : 0;
    ctx.check(std::abs(q.value - cc) <= tol, "correlation-value", fmt("correlation of %s and %s is %.9g, reported as %.9g; ", q.names.first.c_str(), q.names.second.c_str(), cc, q.value) + what);
  }
  ctx.note("values_checked", 1);
  if (worst > 1e-5)
    ctx.note("worst_over_1e-5", 1);
}
bool sameNames(Ctx& ctx, const rct::CovarianceResult& c, std::vector<std::string> want, const std::string& what)
{
  std::vector<std::string> got;
  for (auto& q : c.standard_deviations)
    got.push_back(q.names.first);
  std::string missing, extra;
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  std::vector<std::string> a, b;
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(a));
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(b));
  for (auto& s : a)
    missing += " " + s;
  for (auto& s : b)
    extra += " " + s;
  ctx.check(a.empty() && b.empty(), "names", "free parameters not in the report:" + missing + "; in the report but not free parameters:" + extra + "; " + what);
  return true;
}

// ---------------------------------------------------------------- a linear problem of many blocks
struct Linear : ceres::CostFunction
{
  std::vector<MatrixXd> A;
  VectorXd y;
  Linear(std::vector<MatrixXd> a, VectorXd v) : A(std::move(a)), y(std::move(v))
  {
    set_num_residuals((int)y.size());
    for (auto& m : A)
      mutable_parameter_block_sizes()->push_back((int)m.cols());
  }
  bool Evaluate(double const* const* x, double* r, double** J) const override
  {
    VectorXd o = -y;
    for (std::size_t b = 0; b < A.size(); ++b)
      o += A[b] * Eigen::Map<const VectorXd>(x[b], A[b].cols());
    Eigen::Map<VectorXd>(r, o.size()) = o;
    if (J)
      for (std::size_t b = 0; b < A.size(); ++b)
        if (J[b])
          Eigen::Map<Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(J[b], A[b].rows(), A[b].cols()) = A[b];
    return true;
  }
};
void direct(const Plan& p, Ctx& ctx)
{
  Rng r((uint64_t)p.need("setup").i("seed"), "direct");
  int nb = r.range(1, 6);
  std::vector<int> size(nb), start(nb);
  std::vector<std::unique_ptr<double[]>> x(nb);
  std::vector<int> alloc(nb);
  for (int b = 0; b < nb; ++b)
    alloc[b] = b;
  r.shuffle(alloc);
  int dim = 0;
  for (int b = 0; b < nb; ++b)
    size[b] = r.range(1, 7), start[b] = dim, dim += size[b];
  for (int b : alloc)  // the order of the addresses differs from the order in the problem
  {
    x[b].reset(new double[size[b] + 2]);
    for (int i = 0; i < size[b]; ++i)
      x[b][i] = r.uni(-3, 3);
  }
  std::vector<double> scale(dim);
  for (auto& s : scale)
    s = std::pow(10, r.uni(-2, 2));
  ceres::Problem problem;
  std::vector<bool> fixed(dim, false), known(nb, false);
  // every block measured; blocks linked at random
  std::vector<MatrixXd> rows;
  std::vector<int> order(nb);
  for (int b = 0; b < nb; ++b)
    order[b] = b;
  r.shuffle(order);
  for (int k = 0; k < nb + r.range(0, 4); ++k)
  {
    std::vector<int> in;
    in.push_back(k < nb ? order[k] : r.range(0, nb - 1));
    for (int b = 0; b < nb; ++b)
      if (b != in[0] && r.chance(0.4))
        in.push_back(b);
    r.shuffle(in);
    int m = size[in[0]] + r.range(1, 6);
    std::vector<MatrixXd> A;
    std::vector<double*> ptr;
    MatrixXd row = MatrixXd::Zero(m, dim);
    for (int b : in)
    {
      MatrixXd a(m, size[b]);
      for (int i = 0; i < m; ++i)
        for (int j = 0; j < size[b]; ++j)
          a(i, j) = r.gauss() / scale[start[b] + j];
      A.push_back(a), ptr.push_back(x[b].get());
      row.block(0, start[b], m, size[b]) = a;
    }
    VectorXd y(m);
    for (int i = 0; i < m; ++i)
      y[i] = r.gauss();
    problem.AddResidualBlock(new Linear(A, y), nullptr, ptr);
    rows.push_back(row);
  }
  // parts that are held fixed
  std::map<const double*, std::vector<int>> masks;
  std::vector<bool> left(dim, false);  // left out of the report
  for (int b = 0; b < nb; ++b)
  {
    int how = r.range(0, 9);
    std::vector<int> fix;
    for (int i = 0; i < size[b]; ++i)
      if (r.chance(0.4))
        fix.push_back(i);
    r.shuffle(fix);
    if (how == 0 && nb > 1)
    {
      problem.SetParameterBlockConstant(x[b].get());
      for (int i = 0; i < size[b]; ++i)
        fixed[start[b] + i] = true;
      if (r.chance(0.5))
      {
        std::vector<int>& m = masks[x[b].get()];
        for (int i = 0; i < size[b]; ++i)
          m.push_back(i), left[start[b] + i] = true;
      }
    }
    else if (how <= 4 && !fix.empty() && (int)fix.size() < size[b])
    {
      problem.SetManifold(x[b].get(), new ceres::SubsetManifold(size[b], fix));
      for (int i : fix)
        fixed[start[b] + i] = true;
      if (how <= 3)  // named in the mask as well, as the optimisations do
      {
        masks[x[b].get()] = fix;
        for (int i : fix)
          left[start[b] + i] = true;
      }
    }
    else if (how == 5 && !fix.empty())  // free but not asked for
    {
      masks[x[b].get()] = fix;
      for (int i : fix)
        left[start[b] + i] = true;
    }
    else if (how == 6)
      masks[x[b].get()] = {};
  }
  MatrixXd J(0, dim);
  for (auto& row : rows)
  {
    MatrixXd t(J.rows() + row.rows(), dim);
    t << J, row;
    J = t;
  }
  std::vector<int> fr;
  for (int i = 0; i < dim; ++i)
    if (!fixed[i])
      fr.push_back(i);
  MatrixXd Jf(J.rows(), fr.size());
  for (std::size_t i = 0; i < fr.size(); ++i)
    Jf.col(i) = J.col(fr[i]);
  MatrixXd cf;
  double cond = 0;
  if (fr.empty() || !inverseInformation(Jf, cf, cond) || cond < 1e-3)
    ctx.skip("undetermined");
  MatrixXd full = MatrixXd::Zero(dim, dim);
  for (std::size_t i = 0; i < fr.size(); ++i)
    for (std::size_t j = 0; j < fr.size(); ++j)
      full(fr[i], fr[j]) = cf(i, j);
  // which blocks are asked for, in which order, under which names
  int form_ = r.range(0, 3);
  std::vector<const double*> ask;
  std::vector<int> list;
  if (form_ & 1)
  {
    for (int b = 0; b < nb; ++b)
      if (r.chance(0.75))
        list.push_back(b);
    if (list.empty())
      list.push_back(r.range(0, nb - 1));
    r.shuffle(list);
    for (int b : list)
      ask.push_back(x[b].get());
  }
  else
  {
    std::vector<double*> all;
    problem.GetParameterBlocks(&all);
    for (double* q : all)
      for (int b = 0; b < nb; ++b)
        if (x[b].get() == q)
          list.push_back(b);
  }
  bool named = form_ & 2;
  std::map<const double*, std::vector<std::string>> names;
  std::vector<std::string> want;
  std::vector<int> index;
  for (std::size_t k = 0; k < list.size(); ++k)
  {
    int b = list[k];
    for (int i = 0; i < size[b]; ++i)
    {
      std::string nm = named ? fmt("p%d.%d", b, (i * 5 + b) % 11) : fmt("block%zu_element%d", k, i);
      names[x[b].get()].push_back(nm);
      if (!left[start[b] + i])
        want.push_back(nm), index.push_back(start[b] + i);
    }
  }
  std::string what = fmt("linear problem, %d blocks, %d parameters, %zu fixed, %s%s", nb, dim, dim - fr.size(), form_ & 1 ? "selected blocks" : "all blocks", named ? ", named" : "");
  rct::CovarianceResult c;
  try
  {
    if (form_ == 0)
      c = rct::computeCovariance(problem, masks);
    else if (form_ == 1)
      c = rct::computeCovariance(problem, ask, masks);
    else if (form_ == 2)
      c = rct::computeCovariance(problem, names, masks);
    else
      c = rct::computeCovariance(problem, ask, names, masks);
  }
  catch (const std::exception& e)
  {
    ctx.fail("refused", std::string(e.what()) + "; conditioning " + fmt("%.3g", cond) + "; " + what);
  }
  ctx.note("direct_problems", 1);
  sameNames(ctx, c, want, what);
  form(ctx, p, c, what);
  MatrixXd ref(want.size(), want.size());
  for (std::size_t i = 0; i < want.size(); ++i)
    for (std::size_t j = 0; j < want.size(); ++j)
      ref(i, j) = full(index[i], index[j]);
  values(ctx, c, want, ref, 1e-6, what);
  Digest d;
  for (int b : list)
    d.u(b);
  d.u(form_), d.u(fr.size());
  ctx.state(d.h);
}
// a covariance matrix handed over as such
void table(const Plan& p, Ctx& ctx)
{
  Rng r((uint64_t)p.need("setup").i("seed"), "table");
  int n = r.range(0, 14), zero = r.chance(0.4) ? r.range(0, 3) : 0;
  MatrixXd L(n, n + 2);
  for (int i = 0; i < n; ++i)
  {
    double s = std::pow(10, r.uni(-6, 4));
    for (int j = 0; j < L.cols(); ++j)
      L(i, j) = s * r.gauss();
  }
  for (int k = 0; k < zero && n; ++k)
    L.row(r.range(0, n - 1)).setZero();
  MatrixXd C = L * L.transpose();
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i)
    names.push_back(fmt("q%d", (i * 7 + 3) % 101));
  std::string what = fmt("covariance matrix of %d parameters", n);
  MatrixXd keep = C;
  rct::CovarianceResult c = rct::computeCovarianceResults(C, names);
  ctx.check(C == keep, "input-changed", what);
  sameNames(ctx, c, names, what);
  form(ctx, p, c, what);
  if (n)
    values(ctx, c, names, C, 1e-12, what);
  MatrixXd k = rct::computeCorrelationsFromCovariance(C);
  ctx.check(k == c.correlation_matrix, "correlation-matrix", what);
  ctx.note("tables", 1);
}

void run(const Plan& p, Ctx& ctx)
{
  ctx.simTime(1);
  int kind = (int)p.need("setup").i("kind");
  for (auto* it : p.all("heap"))
    if (it->i("layout"))
      Alloc::layout((uint64_t)it->i("layout")), ctx.fault("memory-layout");
  if (kind == DIRECT)
    return direct(p, ctx);
  if (kind == TABLE)
    return table(p, ctx);
  est::Prob pr = est::build(p, ctx);
  std::vector<int> f = pr.free();
  // can the parameters be determined from what was delivered?
  auto info = [&](const VectorXd& x, MatrixXd& cov, double& cond) {
    if (f.empty() || pr.nmeas == 0)
      return false;
    auto res = [&](const VectorXd& d) {
      VectorXd y = x;
      for (std::size_t i = 0; i < f.size(); ++i)
        y[f[i]] += d[i];
      return pr.resid(y);
    };
    return inverseInformation(numJac4(res, VectorXd::Zero(f.size()), 3e-4), cov, cond);
  };
  // the kinematic calibrations have worker threads: they run under the scheduler, so that a plan is one execution
  bool threads = pr.kind == est::DH2 || pr.kind == est::DH6;
  if (threads)
    Sched::start(p, ctx);
  est::Out o = pr.solve();
  if (threads)
    Sched::stop();
  ctx.event(o.threw ? "error" : "answer");
  MatrixXd cov;
  double cond = 0;
  if (o.threw)
  {
    ctx.note("errors", 1);
    bool det = info(pr.truth, cov, cond) && cond > 0.02 && pr.depth(pr.truth, false) > 0.1;
    ctx.check(!det, "refused", "no report although every parameter is determined (" + fmt("conditioning %.3g", cond) + "): " + o.err + "; " + pr.what);
    return;
  }
  if (!o.hasCov || o.shape == "views")
    return;
  ctx.check(o.shape.empty(), "shape", o.shape + "; " + pr.what);
  if (pr.nmeas == 0)
  {
    ctx.note("no_measurements", 1);
    return;
  }
  std::vector<std::string> want;
  for (int i : f)
    want.push_back(pr.names[i]);
  rct::CovarianceResult c = o.cov;
  // a chain without joints has no parameters, but the library gives it a named placeholder without variance
  if (kind == est::DH2 || kind == est::DH6)
    for (auto& q : c.standard_deviations)
      if (q.names.first.find("placeholder") != std::string::npos)
      {
        ctx.check(q.value == 0, "placeholder", pr.what);
        want.push_back(q.names.first);
        ctx.note("placeholders", 1);
      }
  sameNames(ctx, c, want, pr.what);
  form(ctx, p, c, pr.what);
  ctx.note(std::string("reports ") + est::kindName(kind), 1);
  if (!o.conv || !o.x.allFinite() || pr.depth(o.x, false) < 0.05)
    return;
  for (auto& q : pr.rot)
    if (o.x.segment<3>(q.first).norm() > 2.8)
    {
      ctx.note("near_half_turn", 1);
      return;
    }
  // a solver that travelled this far may have its rotation vectors a turn away from the ones that can be read off the poses
  for (auto& q : pr.rot)
    if ((o.x - pr.truth).segment<3>(q.first).norm() > 0.7)
    {
      ctx.note("travelled_far", 1);
      return;
    }
  if (!info(o.x, cov, cond) || cond < 3e-4)
  {
    ctx.note("undetermined", 1);
    return;
  }
  std::size_t n = f.size();
  MatrixXd ref = MatrixXd::Zero(want.size(), want.size());
  ref.topLeftCorner(n, n) = cov;
  values(ctx, c, want, ref, 1e-3, fmt("conditioning %.3g, ", cond) + pr.what);
  ctx.note(std::string("values ") + est::kindName(kind), 1);
}
Registrar reg({ "C09", gen, run, "distinct delivered histories, block selections and memory layouts" });
}  // namespace
