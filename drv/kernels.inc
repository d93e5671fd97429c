// Direct calls of the numerical and nuclear-model kernels (property C24).
#include "physics.h"
#include "etc.h"
#include "optical.h"
#include "cgm.h"
#include "global.h"
#include "masstable.h"
#include "excinterface.h"
#include "evapinterface.h"
#include "Yields.h"
static Pdata kpdt[MAX_CHANNEL];

static void k_put(const char *k, double v) { fprintf(out, ",\"%s\":", k); num(v); }
static void k_setup(int Z, int A, double U, int nemit) {
  ncl[0].za.setZA(Z, A);
  ncl[0].max_energy = U;
  statSetupInitSystem(nemit, kpdt);
  getDiscreteLevels(ncl, nemit);
  for (int i = 0; i <= nemit; i++) {
    statSetupEnergyBin(&ncl[i]);
    statSetupLevelDensityParameter(&ncl[i], &ncl[i].ldp);
  }
}
static void k_nucleus(int i, const char *name, bool dens) {
  Nucleus &n = ncl[i];
  fprintf(out, ",\"%s\":{\"Z\":%d,\"A\":%d,\"ncont\":%d,\"ntotal\":%d,\"ndisc\":%d", name, n.za.getZ(), n.za.getA(), n.ncont, n.ntotal, n.ndisc);
  k_put("max", n.max_energy); k_put("de", n.de); k_put("mass", n.mass); k_put("mx", n.mass_excess);
  frag("ldp", { n.ldp.match_energy, n.ldp.shell_correct, n.ldp.temperature, n.ldp.E0, n.ldp.a, n.ldp.pairing_energy, n.ldp.sigma0 });
  std::vector<double> v(n.excitation, n.excitation + (n.ntotal > 0 ? n.ntotal : 0)); arr("ex", v);
  v.assign(n.binwidth, n.binwidth + (n.ntotal > 0 ? n.ntotal : 0)); arr("bw", v);
  v.clear(); for (int k = 0; k < n.ndisc; k++) { v.push_back(n.lev[k].energy); v.push_back(n.lev[k].spin); v.push_back(n.lev[k].parity); } arr("lev", v);
  if (dens) {
    v.clear();
    for (int k = 0; k <= n.ncont && k < n.ntotal; k++) for (int j = 0; j < MAX_J; j++) { v.push_back(n.density[k][j].even); v.push_back(n.density[k][j].odd); }
    arr("dens", v);
  }
  fputc('}', out);
}
static void k_om(std::istringstream &is) {
  // k_om Z A E : neutron transmission coefficients of target (Z,A)
  int Z, A; double E; is >> Z >> A >> E;
  ncl[0].za.setZA(Z, A + 1); ncl[0].max_energy = 50.0;
  statSetupInitSystem(1, kpdt);
  ZAnumber za(Z, A);
  double mu = ncl[1].mass * kpdt[neutron].mass / (ncl[1].mass + kpdt[neutron].mass);
  std::vector<double> t(3 * MAX_J + 8, -7.0);
  CrossSection cx; cx.reaction = cx.elastic = cx.total = 0.0;
  int lmax = omCalc(E, &kpdt[neutron], &za, mu, t.data(), &cx);
  fprintf(out, "{\"k\":\"k_om\",\"Z\":%d,\"A\":%d,\"E\":%.17g,\"lmax\":%d", Z, A, E, lmax);
  k_put("mu", mu); k_put("reac", cx.reaction);
  t.resize(3 * (lmax + 1 > 0 ? lmax + 1 : 0)); arr("t", t);
  fputs("}\n", out);
}
static void k_ext(std::istringstream &is) {
  // k_ext rho : free radial functions
  double rho; is >> rho;
  std::vector<Complex> e(MAX_L + 4), d(MAX_L + 4);
  Wavefunc w; w.external = e.data(); w.extderiv = d.data();
  int lmax = omExternalFunction(0, rho, 0.0, 0.0, &w);
  fprintf(out, "{\"k\":\"k_ext\",\"rho\":%.17g,\"lmax\":%d", rho, lmax);
  std::vector<double> v;
  for (int l = 0; l <= lmax; l++) { v.push_back(e[l].real); v.push_back(e[l].imag); v.push_back(d[l].real); v.push_back(d[l].imag); }
  arr("w", v); fputs("}\n", out);
}
static void k_ld(std::istringstream &is) {
  // k_ld Z A U e1 e2 ... : level density of one nucleus
  int Z, A; double U, e; is >> Z >> A >> U;
  gen.seed(1); dist.reset();
  k_setup(Z, A, U, 0);
  fprintf(out, "{\"k\":\"k_ld\",\"U\":%.17g", U);
  k_nucleus(0, "n", true);
  std::vector<double> v;
  while (is >> e) {
    ncl[0].ldp.spin_cutoff = 0.0;
    double r = ldLevelDensity(e, A, &ncl[0].ldp), s = ldSpinDistribution(2.0, ncl[0].ldp.spin_cutoff, ncl[0].ldp.sigma0);
    v.push_back(e); v.push_back(r); v.push_back(ldDensityParameter(e, A, &ncl[0].ldp)); v.push_back(s);
  }
  arr("rho", v);
  frag("sys", { kckAsymptoticLevelDensity(A), kckSpinCutoff(A), kckTemperature(A, ncl[0].ldp.shell_correct), kckE0(A, ncl[0].ldp.pairing_energy, ncl[0].ldp.shell_correct),
      ldParityDistribution(1), ldParityDistribution(-1) });
  fputs("}\n", out);
}
static void k_gdr(std::istringstream &is) {
  // k_gdr Z A a beta eg1 ex1 eg2 ex2 ... : giant resonances and photon transmission
  int Z, A; double a, beta, eg, ex; is >> Z >> A >> a >> beta;
  ncl[0].za.setZA(Z, A);
  GDR g[MAX_GDR];
  statSetupGdrParameter(&ncl[0], a, g, beta);
  fprintf(out, "{\"k\":\"k_gdr\",\"Z\":%d,\"A\":%d,\"a\":%.17g,\"beta\":%.17g,\"gdr\":[", Z, A, a, beta);
  bool first = true;
  for (int i = 0; i < MAX_GDR; i++) if (g[i].getEnergy() > 0.0) {
    fprintf(out, "%s[\"%s\",", first ? "" : ",", g[i].getXL().c_str()); num(g[i].getEnergy()); fputc(',', out); num(g[i].getWidth()); fputc(',', out); num(g[i].getSigma()); fputc(']', out);
    first = false;
  }
  fputc(']', out);
  std::vector<double> v;
  while (is >> eg >> ex) {
    v.push_back(eg); v.push_back(ex);
    v.push_back(gdrGammaTransmission(GL, E1_MULTIPOL, eg, E1, a, ex));
    v.push_back(gdrGammaTransmission(SL, E1_MULTIPOL, eg, E1, 0.0, 0.0));
    v.push_back(gdrGammaTransmission(SL, M1_MULTIPOL, eg, M1, 0.0, 0.0));
    v.push_back(gdrGammaTransmission(SL, E2_MULTIPOL, eg, E2, 0.0, 0.0));
  }
  arr("t", v); fputs("}\n", out);
}
static void k_tran(const char *name, Transmission *t, int n) {
  fprintf(out, ",\"%s\":[", name);
  for (int k = 0; k < n; k++) {
    fprintf(out, "%s[", k ? "," : ""); num(t[k].ecms); fprintf(out, ",%d", t[k].lmax);
    if (t[k].ecms > 0.0) for (int l = 0; l <= t[k].lmax; l++) { fputc(',', out); num(t[k].tran[3 * l]); fputc(',', out); num(l ? t[k].tran[3 * l + 1] : 0.0); }
    fputc(']', out);
  }
  fputc(']', out);
}
static void k_pop(int i, const char *name) {
  Nucleus &n = ncl[i];
  std::vector<double> v;
  for (int k = 0; k < n.ntotal; k++) for (int j = 0; j < MAX_J; j++)
    if (n.pop[k][j].even != 0.0 || n.pop[k][j].odd != 0.0) { v.push_back(k); v.push_back(j); v.push_back(n.pop[k][j].even); v.push_back(n.pop[k][j].odd); }
  arr(name, v);
  v.assign(n.lpop, n.lpop + n.ndisc); arr((std::string(name) + "l").c_str(), v);
}
static void k_decay(std::istringstream &is) {
  // k_decay Z A U J P : decay probabilities of one excited state
  int Z, A, P; double U, J; is >> Z >> A >> U >> J >> P;
  gen.seed(1); dist.reset();
  ncl[0].za.setZA(Z, A); ncl[0].max_energy = U;
  int nemit = statTotalNeutrons(U, &ncl[0].za);
  k_setup(Z, A, U, nemit);
  GDR g[MAX_GDR];
  statSetupGdrParameter(&ncl[0], ncl[0].ldp.a, g, 0.0);
  fprintf(out, "{\"k\":\"k_decay\",\"U\":%.17g,\"J\":%.17g,\"P\":%d,\"nemit\":%d,\"open\":%d", U, J, P, nemit, ncl[0].cdt[neutron].status ? 1 : 0);
  k_put("Sn", ncl[0].cdt[neutron].binding_energy);
  k_nucleus(0, "n0", false);
  if (ncl[0].cdt[neutron].status) k_nucleus(1, "n1", false);
  if (ncl[0].ncont > 0) {
    static Transmission *tin = 0, *tc = 0, *td = 0;
    static double *spc[SPECTRA_OUTPUT], *tg[MAX_MULTIPOL];
    if (!tc) {
      tc = new Transmission[MAX_ENERGY_BIN]; td = new Transmission[MAX_LEVELS]; tin = new Transmission;
      tin->tran = new double[3 * MAX_J];
      for (int k = 0; k < MAX_ENERGY_BIN; k++) tc[k].tran = new double[3 * MAX_J];
      for (int k = 0; k < MAX_LEVELS; k++) td[k].tran = new double[3 * MAX_J];
      for (int i = 0; i < SPECTRA_OUTPUT; i++) spc[i] = new double[MAX_ENERGY_BIN];
      for (int i = 0; i < MAX_MULTIPOL; i++) tg[i] = new double[MAX_ENERGY_BIN];
    }
    for (int i = 0; i < SPECTRA_OUTPUT; i++) for (int k = 0; k < MAX_ENERGY_BIN; k++) spc[i][k] = 0.0;
    ctl.init_pop = SINGLE;
    statSetupInitialPopulationSpec(J, P, 0, 0.0, tin);
    std::vector<double> v;
    for (int j = 0; j < MAX_J; j++) { v.push_back(ncl[0].pop[0][j].even); v.push_back(ncl[0].pop[0][j].odd); }
    arr("ini", v);
    spectraBinary(0, kpdt, spc);
    k_pop(0, "p0");
    if (ncl[0].cdt[neutron].status) {
      k_pop(1, "p1");
      statStoreContinuumTransmission(0, 0, &kpdt[neutron], tc);
      statStoreDiscreteTransmission(0, 0, &kpdt[neutron], td);
      k_tran("tc", tc, ncl[1].ncont); k_tran("td", td, ncl[1].ndisc);
    }
    v.assign(spc[0], spc[0] + ncl[0].ntotal + 2); arr("sg", v);
    v.assign(spc[1], spc[1] + ncl[0].ntotal + 2); arr("sn", v);
  }
  fputs("}\n", out);
}
static void k_bin(std::istringstream &is) {
  double e, de; std::vector<double> v;
  while (is >> e >> de) { v.push_back(e); v.push_back(de); v.push_back(specFindEnergyBin(e, de)); }
  fputs("{\"k\":\"k_bin\"", out); arr("v", v); fputs("}\n", out);
}
static void k_preq(std::istringstream &is) {
  // k_preq Z A E : pre-equilibrium neutron spectrum of n + (Z,A)
  int Z, A; double E; is >> Z >> A >> E;
  static double *spc[SPECTRA_OUTPUT];
  if (!spc[0]) for (int i = 0; i < SPECTRA_OUTPUT; i++) spc[i] = new double[MAX_ENERGY_BIN];
  for (int i = 0; i < 2; i++) { ncl[i].za.setZA(Z, A + 1 - i); }
  ncl[0].max_energy = 5.0; ncl[1].max_energy = 5.0;
  getDiscreteLevels(ncl, 1);
  excitonInterface(Z, A, E, spc);
  fprintf(out, "{\"k\":\"k_preq\",\"Z\":%d,\"A\":%d,\"E\":%.17g,\"nt\":%d", Z, A, E, ncl[1].ntotal);
  k_put("max0", ncl[0].max_energy); k_put("max1", ncl[1].max_energy);
  std::vector<double> v(ncl[1].excitation, ncl[1].excitation + ncl[1].ntotal); arr("ex", v);
  v.assign(spc[neutron], spc[neutron] + ncl[1].ntotal); arr("s", v);
  fputs("}\n", out);
}
static void k_etc(std::istringstream &is) {
  // k_etc name n a x ... : one special function, several arguments
  std::string f; is >> f;
  double n, a, x; std::vector<double> v;
  fprintf(out, "{\"k\":\"k_etc\",\"f\":\"%s\"", f.c_str());
  while (is >> n >> a >> x) {
    double y = 0, z = 0; Complex c(a, x), r;
    if (f == "loggamma") y = loggamma(x);
    else if (f == "gam") y = gam(x);
    else if (f == "legendre") y = legendre((int)n, x);
    else if (f == "legendre1") y = legendre1((int)n, x);
    else if (f == "assoc") y = assocLegendrePol((int)n, (int)a, x);
    else if (f == "bessi2") y = bessi2((int)n, x);
    else if (f == "bessk2") y = bessk2((int)n, x);
    else if (f == "laguerre") y = laguerre((int)n, a, x);
    else if (f == "gauss") y = gaussian_weight(n, a, x);
    else if (f == "jvol") { y = dep_to_jvol(n, a, x, 0.66); z = jvol_to_dep(n, y, x, 0.66); }
    else if (f == "jsrf") { y = dep_to_jsrf(n, a, x, 0.58); z = jsrf_to_dep(n, y, x, 0.58); }
    else if (f == "abs") y = absolute(&c);
    else if (f == "sqrt") { r = compsqrt(&c); y = r.real; z = r.imag; }
    else if (f == "pow") { r = comppow(&c, n); y = r.real; z = r.imag; }
    else if (f == "ratio") { r = rational(n, 1.5, a, x); y = r.real; z = r.imag; }
    v.push_back(n); v.push_back(a); v.push_back(x); v.push_back(y); v.push_back(z);
  }
  arr("v", v); fputs("}\n", out);
}
static void k_ysys(std::istringstream &is) {
  // k_ysys cn0 sf n e n e ... : one parametrisation object asked for one fissioning system after the other
  int cn, sf, n; double e; is >> cn >> sf;
  Yields y(cn, sf != 0);
  fprintf(out, "{\"k\":\"k_ysys\",\"cn\":%d,\"sf\":%d,\"q\":[", cn, sf);
  bool first = true;
  while (is >> n >> e) {
    int Ac = cn % 1000 - n; double sum = 0;
    y.setFissioningSystem(cn - n, e);
    std::vector<double> Y(400, 0.0), m, w;
    for (int a = 1; a < Ac; a++) sum += Y[a] = y.yieldA(a);
    for (int a = 1; a < Ac; a++) Y[a] /= sum;
    y.setRescaleTKE(Y.data(), 1, Ac - 1);
    for (int a = 1; a < Ac; a++) { m.push_back(y.get_avTKE(a)); w.push_back(y.yieldTKE(a, m.back())); }
    fprintf(out, "%s{\"n\":%d,\"e\":%.17g", first ? "" : ",", n, e); first = false;
    Y.resize(Ac); arr("Y", Y); arr("m", m); arr("w", w);
    fputc('}', out);
  }
  fputs("]}\n", out);
}
static void k_chance(std::istringstream &is) {
  // k_chance zaid e n seed : how often each number of pre-fission neutrons is drawn
  int za, n; double e; unsigned long seed; is >> za >> e >> n >> seed;
  gen.seed((unsigned)seed); dist.reset(); ndraw = 0;
  FissionFragments *ff = new FissionFragments(za, e, 0.0);
  std::vector<double> c(8, 0.0);
  for (int i = 0; i < n; i++) { int k = ff->getNumberPrefissionNeutrons(); c[k < 0 || k > 6 ? 7 : k] += 1; }
  delete ff;
  fprintf(out, "{\"k\":\"k_chance\",\"za\":%d,\"e\":%.17g,\"n\":%d", za, e, n); arr("c", c); fputs("}\n", out);
}
static bool kernel_command(const std::string &c, std::istringstream &is) {
  if (c.compare(0, 2, "k_")) return false;
  alive();
  if (c == "k_om") k_om(is);
  else if (c == "k_ext") k_ext(is);
  else if (c == "k_ld") k_ld(is);
  else if (c == "k_gdr") k_gdr(is);
  else if (c == "k_decay") k_decay(is);
  else if (c == "k_bin") k_bin(is);
  else if (c == "k_preq") k_preq(is);
  else if (c == "k_etc") k_etc(is);
  else if (c == "k_ysys") k_ysys(is);
  else if (c == "k_chance") k_chance(is);
  else return false;
  return true;
}
