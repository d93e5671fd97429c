// Event driver: exercises libcgmf through its public C++ and C interfaces and
// dumps everything a client can observe, one JSON object per line, in full
// double precision.  Commands are read from stdin, one per line.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <random>
#include <iostream>
#include <sstream>
#include <functional>
#include <stdexcept>
#include <malloc.h>
#include <map>
#include <fcntl.h>
#include <unistd.h>
#include "cgmfEvents.h"
#include "cgmfEvents_capi.h"
#ifdef CGMF_MONITOR
#include "cgmf_monitor.h"
#endif

static FILE *out;            // results go here; library chatter stays on stdout
static long ndraw = 0;       // random numbers consumed by the current command
static std::mt19937 gen;
static std::uniform_real_distribution<double> dist;
static int hostile = 0;
static double draw() {
  ndraw++;
  double r = dist(gen);
  if (hostile) {             // legal but extreme values of a [0,1) generator
    double q = dist(gen);
    if (q < 0.01) return 1e-15;
    if (q < 0.02) return 1.0 - 1e-15;
  }
  return r;
}

static void num(double x) {
  if (std::isnan(x)) fputs("NaN", out);
  else if (std::isinf(x)) fputs(x > 0 ? "Infinity" : "-Infinity", out);
  else fprintf(out, "%.17g", x);
}
static void arr(const char *k, const std::vector<double> &v) {
  fprintf(out, ",\"%s\":[", k);
  for (size_t i = 0; i < v.size(); i++) { if (i) fputc(',', out); num(v[i]); }
  fputc(']', out);
}

#ifdef CGMF_MONITOR
static std::vector<std::string> steps;
static std::vector<cgmf_monitor_step> raw;
static bool rawonly = false;
static void on_step(const cgmf_monitor_step *s) {
  if (rawonly) { raw.push_back(*s); return; }
  char b[400];
  snprintf(b, sizeof b, "[%d,%d,%d,%d,%.17g,%d,%d,%d,%d,%d,%.17g,%d,%d,%.17g,%.17g]",
           s->Z0, s->A0, s->J0, s->P0, s->E0, s->discrete0, s->K0, s->A1, s->J1, s->P1, s->E1, s->discrete1, s->ic, s->energy, s->K1 * 1.0);
  steps.push_back(b);
}
#endif

static void put_steps() {
#ifdef CGMF_MONITOR
  fputs(",\"steps\":[", out);
  for (size_t i = 0; i < steps.size(); i++) { if (i) fputc(',', out); fputs(steps[i].c_str(), out); }
  fputc(']', out); steps.clear();
#endif
}
static cgmfEvent *cur = 0;

static void frag(const char *n, std::vector<double> v) { arr(n, v); }

static void dump(cgmfEvent *e) {
  fprintf(out, ",\"za\":%d,\"einc\":", e->getTargetNucleus()); num(e->getIncidentEnergy());
  frag("L", { (double)e->getLightFragmentMass(), (double)e->getLightFragmentCharge(), e->getLightFragmentKineticEnergy(),
      e->getLightFragmentKineticEnergyPost(), e->getLightFragmentExcitationEnergy(), e->getLightFragmentSpin(),
      (double)e->getLightFragmentParity(), (double)e->getLightFragmentNeutronNu(), (double)e->getLightFragmentPhotonNu() });
  frag("H", { (double)e->getHeavyFragmentMass(), (double)e->getHeavyFragmentCharge(), e->getHeavyFragmentKineticEnergy(),
      e->getHeavyFragmentKineticEnergyPost(), e->getHeavyFragmentExcitationEnergy(), e->getHeavyFragmentSpin(),
      (double)e->getHeavyFragmentParity(), (double)e->getHeavyFragmentNeutronNu(), (double)e->getHeavyFragmentPhotonNu() });
  frag("Lpre", { e->getLightFragmentPreMomentumX(), e->getLightFragmentPreMomentumY(), e->getLightFragmentPreMomentumZ() });
  frag("Lpost", { e->getLightFragmentPostMomentumX(), e->getLightFragmentPostMomentumY(), e->getLightFragmentPostMomentumZ() });
  frag("Hpre", { e->getHeavyFragmentPreMomentumX(), e->getHeavyFragmentPreMomentumY(), e->getHeavyFragmentPreMomentumZ() });
  frag("Hpost", { e->getHeavyFragmentPostMomentumX(), e->getHeavyFragmentPostMomentumY(), e->getHeavyFragmentPostMomentumZ() });
  frag("Ldir", { e->getLightFragmentDircosu(), e->getLightFragmentDircosv(), e->getLightFragmentDircosw() });
  frag("Hdir", { e->getHeavyFragmentDircosu(), e->getHeavyFragmentDircosv(), e->getHeavyFragmentDircosw() });
  int n = e->getNeutronNu(), g = e->getPhotonNu(), p = e->getPreFissionNeutronNu();
  fprintf(out, ",\"nn\":%d,\"ng\":%d,\"npre\":%d", n, g, p);
  std::vector<double> v;
#define LIST(KEY, N, F) v.clear(); for (int i = 0; i < N; i++) v.push_back(e->F(i)); arr(KEY, v);
  LIST("nE", n, getNeutronEnergy) LIST("nu", n, getNeutronDircosu) LIST("nv", n, getNeutronDircosv) LIST("nw", n, getNeutronDircosw)
  LIST("nt", n, getNeutronAge) LIST("cE", n, getCmNeutronEnergy) LIST("cu", n, getCmNeutronDircosu) LIST("cv", n, getCmNeutronDircosv)
  LIST("cw", n, getCmNeutronDircosw)
  LIST("gE", g, getPhotonEnergy) LIST("gu", g, getPhotonDircosu) LIST("gv", g, getPhotonDircosv) LIST("gw", g, getPhotonDircosw) LIST("gt", g, getPhotonAge)
  LIST("pE", p, getPreFissionNeutronEnergy) LIST("pu", p, getPreFissionNeutronDircosu) LIST("pv", p, getPreFissionNeutronDircosv) LIST("pw", p, getPreFissionNeutronDircosw)
  // out-of-range indices must be answered with the documented -1
  v.clear();
#define OOB(N, F) v.push_back(e->F(-1)); v.push_back(e->F(N)); v.push_back(e->F(N + 1)); v.push_back(e->F(100000));
  OOB(n, getNeutronEnergy) OOB(n, getNeutronDircosu) OOB(n, getNeutronDircosv) OOB(n, getNeutronDircosw) OOB(n, getNeutronAge)
  OOB(n, getCmNeutronEnergy) OOB(n, getCmNeutronDircosu) OOB(n, getCmNeutronDircosv) OOB(n, getCmNeutronDircosw)
  OOB(g, getPhotonEnergy) OOB(g, getPhotonDircosu) OOB(g, getPhotonDircosv) OOB(g, getPhotonDircosw) OOB(g, getPhotonAge)
  OOB(p, getPreFissionNeutronEnergy) OOB(p, getPreFissionNeutronDircosu) OOB(p, getPreFissionNeutronDircosv) OOB(p, getPreFissionNeutronDircosw)
  arr("oob", v);
}

static void dumpC() {
  int n = cgmf_getnnu(), g = cgmf_getgnu(), p = cgmf_getprennu();
  frag("L", { (double)cgmf_getlfmass(), (double)cgmf_getlfcharge(), cgmf_getlfke(), cgmf_getlfkepost(), cgmf_getlfu(), cgmf_getlfspin(), (double)cgmf_getlfparity(), (double)cgmf_getlfnnu(), (double)cgmf_getlfgnu() });
  frag("H", { (double)cgmf_gethfmass(), (double)cgmf_gethfcharge(), cgmf_gethfke(), cgmf_gethfkepost(), cgmf_gethfu(), cgmf_gethfspin(), (double)cgmf_gethfparity(), (double)cgmf_gethfnnu(), (double)cgmf_gethfgnu() });
  frag("Lpre", { cgmf_getlfpremomentum_x(), cgmf_getlfpremomentum_y(), cgmf_getlfpremomentum_z() });
  frag("Lpost", { cgmf_getlfpostmomentum_x(), cgmf_getlfpostmomentum_y(), cgmf_getlfpostmomentum_z() });
  frag("Hpre", { cgmf_gethfpremomentum_x(), cgmf_gethfpremomentum_y(), cgmf_gethfpremomentum_z() });
  frag("Hpost", { cgmf_gethfpostmomentum_x(), cgmf_gethfpostmomentum_y(), cgmf_gethfpostmomentum_z() });
  frag("Ldir", { cgmf_getlfdircosu(), cgmf_getlfdircosv(), cgmf_getlfdircosw() });
  frag("Hdir", { cgmf_gethfdircosu(), cgmf_gethfdircosv(), cgmf_gethfdircosw() });
  frag("Lpdir", { cgmf_getpostlfdircosu(), cgmf_getpostlfdircosv(), cgmf_getpostlfdircosw() });
  frag("Hpdir", { cgmf_getposthfdircosu(), cgmf_getposthfdircosv(), cgmf_getposthfdircosw() });
  fprintf(out, ",\"nn\":%d,\"ng\":%d,\"npre\":%d", n, g, p);
  std::vector<double> v;
#define CLIST(KEY, N, F) v.clear(); for (int i = 0; i < N; i++) v.push_back(F(i)); arr(KEY, v);
  CLIST("nE", n, cgmf_getnerg) CLIST("nu", n, cgmf_getndircosu) CLIST("nv", n, cgmf_getndircosv) CLIST("nw", n, cgmf_getndircosw) CLIST("nt", n, cgmf_getntme)
  CLIST("cE", n, cgmf_getcmnerg) CLIST("cu", n, cgmf_getcmndircosu) CLIST("cv", n, cgmf_getcmndircosv) CLIST("cw", n, cgmf_getcmndircosw)
  CLIST("gE", g, cgmf_getgerg) CLIST("gu", g, cgmf_getgdircosu) CLIST("gv", g, cgmf_getgdircosv) CLIST("gw", g, cgmf_getgdircosw) CLIST("gt", g, cgmf_getgtme)
  CLIST("pE", p, cgmf_getprenerg) CLIST("pu", p, cgmf_getprendircosu) CLIST("pv", p, cgmf_getprendircosv) CLIST("pw", p, cgmf_getprendircosw)
  v.clear();
#define COOB(N, F) v.push_back(F(-1)); v.push_back(F(N)); v.push_back(F(N + 1)); v.push_back(F(100000));
  COOB(n, cgmf_getnerg) COOB(n, cgmf_getndircosu) COOB(n, cgmf_getndircosv) COOB(n, cgmf_getndircosw) COOB(n, cgmf_getntme)
  COOB(n, cgmf_getcmnerg) COOB(n, cgmf_getcmndircosu) COOB(n, cgmf_getcmndircosv) COOB(n, cgmf_getcmndircosw)
  COOB(g, cgmf_getgerg) COOB(g, cgmf_getgdircosu) COOB(g, cgmf_getgdircosv) COOB(g, cgmf_getgdircosw) COOB(g, cgmf_getgtme)
  COOB(p, cgmf_getprenerg) COOB(p, cgmf_getprendircosu) COOB(p, cgmf_getprendircosv) COOB(p, cgmf_getprendircosw)
  arr("oob", v);
}

// ---- internals (compiled in only where the internal headers still offer them)
#ifndef DRV_PUBLIC_ONLY
#include "cgm.h"
#include "global.h"
#include "config.h"
#include "FissionFragments.h"
#include "masstable.h"
#include "ripl2levels.h"
#include "rngcgm.h"
#include "kcksyst.h"
void set_time_coincidence_window(double);
double getDeformation(int); double getTemperature(int, double); double getLDP(int, double); double getMassExcess(int);
static void alive() {
  if (!cur) { gen.seed(1); cur = new cgmfEvent(98252, 0.0, 0.0, -1.0); }
#ifdef CGMF_MONITOR
  steps.clear();
#endif
}
static void do_frag(std::istringstream &is) {
  // frag Z A U J P px py pz window seed
  int Z, A, P; double U, J, px, py, pz, w; unsigned long seed;
  is >> Z >> A >> U >> J >> P >> px >> py >> pz >> w >> seed;
  alive();
  set_time_coincidence_window(w);
  gen.seed((unsigned)seed); dist.reset(); ndraw = 0;
  fissionEventType fe;
  fe.Z = Z; fe.A = A; fe.U = U; fe.spin = J; fe.parity = P;
  fe.preFragmentMomentum[0] = px; fe.preFragmentMomentum[1] = py; fe.preFragmentMomentum[2] = pz;
  specMCMainFission(&fe);
  fprintf(out, "{\"k\":\"frag\",\"Z\":%d,\"A\":%d,\"U\":%.17g,\"J\":%.17g,\"P\":%d,\"w\":%.17g,\"seed\":%lu,\"nn\":%d,\"ng\":%d,\"KEpost\":", Z, A, U, J, P, w, seed, fe.nu, fe.nug);
  num(fe.KEpost);
  frag("pre", { px, py, pz });
  frag("post", { fe.postFragmentMomentum[0], fe.postFragmentMomentum[1], fe.postFragmentMomentum[2] });
  std::vector<double> v;
#define FL(KEY, N, M) v.assign(fe.M, fe.M + N); arr(KEY, v);
  FL("nE", fe.nu, neutronEnergies) FL("nu", fe.nu, neutronDircosu) FL("nv", fe.nu, neutronDircosv) FL("nw", fe.nu, neutronDircosw)
  FL("cE", fe.nu, cmNeutronEnergies) FL("cu", fe.nu, cmNeutronDircosu) FL("cv", fe.nu, cmNeutronDircosv) FL("cw", fe.nu, cmNeutronDircosw)
  FL("gE", fe.nug, photonEnergies) FL("gu", fe.nug, photonDircosu) FL("gv", fe.nug, photonDircosv) FL("gw", fe.nug, photonDircosw) FL("gt", fe.nug, photonAges)
  FL("gc", fe.nug, cmPhotonEnergies) FL("gcu", fe.nug, cmPhotonDircosu) FL("gcv", fe.nug, cmPhotonDircosv) FL("gcw", fe.nug, cmPhotonDircosw)
  put_steps();
  fprintf(out, ",\"draws\":%ld}\n", ndraw);
}
#ifdef CGMF_MONITOR
#include <map>
#include <array>
static void do_casc(std::istringstream &is) {
  // casc Z A U w n seed : n decays of a fragment from one excitation energy; counts of discrete transitions,
  // level in which each decay ended, and the age of the photon of the first transition (when there is one)
  int Z, A, n; double U, w; unsigned long seed;
  is >> Z >> A >> U >> w >> n >> seed;
  alive();
  set_time_coincidence_window(w);
  gen.seed((unsigned)seed); dist.reset(); ndraw = 0;
  std::map<std::array<int, 4>, long> cnt; std::map<int, long> end, start;
  std::vector<double> ages;
  rawonly = true;
  for (int i = 0; i < n; i++) {
    raw.clear();
    fissionEventType fe;
    fe.Z = Z; fe.A = A; fe.U = U; fe.spin = (A % 2) ? 0.5 : 0.0; fe.parity = 1;
    fe.preFragmentMomentum[0] = fe.preFragmentMomentum[1] = 10.0; fe.preFragmentMomentum[2] = 3000.0;
    specMCMainFission(&fe);
    int k = -1;
    for (auto &st : raw) if (st.discrete0) {
      if (k < 0) { start[st.K0]++; if (!st.ic && fe.nug > 0) ages.push_back(fe.photonAges[0]); }
      cnt[{ { st.A0, st.K0, st.K1, st.ic } }]++; k = st.K1;
    }
    end[k]++;
  }
  rawonly = false;
  fprintf(out, "{\"k\":\"casc\",\"Z\":%d,\"A\":%d,\"U\":%.17g,\"w\":%.17g,\"n\":%d,\"seed\":%lu,\"cnt\":[", Z, A, U, w, n, seed);
  bool f = true;
  for (auto &q : cnt) { fprintf(out, "%s[%d,%d,%d,%d,%ld]", f ? "" : ",", q.first[0], q.first[1], q.first[2], q.first[3], q.second); f = false; }
  fprintf(out, "],\"end\":["); f = true;
  for (auto &q : end) { fprintf(out, "%s[%d,%ld]", f ? "" : ",", q.first, q.second); f = false; }
  fprintf(out, "],\"start\":["); f = true;
  for (auto &q : start) { fprintf(out, "%s[%d,%ld]", f ? "" : ",", q.first, q.second); f = false; }
  fprintf(out, "],\"ages\":["); f = true;
  for (double a : ages) { fprintf(out, "%s%.9g", f ? "" : ",", a); f = false; }
  fprintf(out, "]}\n");
}
#endif
static void do_ff(std::istringstream &is) {
  // ff zaid einc n seed : sample n initial fragment pairs from one generator state
  int za, n; double e; unsigned long seed; is >> za >> e >> n >> seed;
  alive();
  gen.seed((unsigned)seed); dist.reset(); ndraw = 0;
  std::vector<fissionFragmentType> lf(n), hf(n);
  FissionFragments *ff = new FissionFragments(za, e, 0.0);
  ff->generateInitialFissionFragmentHistories(lf.data(), hf.data(), n);
  for (int i = 0; i < n; i++) {
    fprintf(out, "{\"k\":\"ff\",\"za\":%d,\"einc\":%.17g,\"seed\":%lu,\"i\":%d,\"Ac\":%d,\"Ac0\":%d,\"eff\":%.17g", za, e, seed, i, ff->Ac, ff->Ac0, ff->incidentEnergy);
    frag("L", { (double)lf[i].A, (double)lf[i].Z, lf[i].KE, lf[i].TKE, lf[i].U, lf[i].spin, (double)lf[i].parity, lf[i].energyRelease, lf[i].mass });
    frag("H", { (double)hf[i].A, (double)hf[i].Z, hf[i].KE, hf[i].TKE, hf[i].U, hf[i].spin, (double)hf[i].parity, hf[i].energyRelease, hf[i].mass });
    frag("Lpre", { lf[i].preMomentum[0], lf[i].preMomentum[1], lf[i].preMomentum[2] });
    frag("Hpre", { hf[i].preMomentum[0], hf[i].preMomentum[1], hf[i].preMomentum[2] });
    if (i == n - 1) {
      std::vector<double> v;
      for (int p = 0; p < ff->Ac0 - ff->Ac && p < MAX_NUMBER_NEUTRONS_PRE; p++) for (int k = 0; k < 3; k++) v.push_back(ff->labVelocities_pfn[p][k]);
      arr("pre", v);
      fprintf(out, ",\"aniso\":"); num(ff->anisotropyCoefficient);
      fprintf(out, ",\"preeq\":%d", ff->preeq_flag ? 1 : 0);
    }
    fprintf(out, ",\"draws\":%ld}\n", ndraw);
  }
  delete ff;
}
static void do_ffs(std::istringstream &is) {
  // ffs zaid einc n seed : n times one event from one object; pre-fission neutrons only
  int za, n; double e; unsigned long seed; is >> za >> e >> n >> seed;
  alive();
  gen.seed((unsigned)seed); dist.reset(); ndraw = 0;
  FissionFragments *ff = new FissionFragments(za, e, 0.0);
  std::vector<double> v, q;
  for (int i = 0; i < n; i++) {
    fissionFragmentType lf, hf;
    ff->generateInitialFissionFragmentHistories(&lf, &hf, 1);
    int m = ff->Ac0 - ff->Ac;
    v.push_back(m);
    for (int p = 0; p < m && p < MAX_NUMBER_NEUTRONS_PRE; p++) for (int k = 0; k < 3; k++) v.push_back(ff->cmVelocities_pfn[p][k]);
    q.push_back(ff->preeq_flag ? 1 : 0);
    if (m == 0) break;
  }
  fprintf(out, "{\"k\":\"ffs\",\"za\":%d,\"einc\":%.17g,\"seed\":%lu", za, e, seed);
  arr("v", v); arr("preeq", q);
  fprintf(out, "}\n");
  delete ff;
}
static void do_yld(std::istringstream &is) {
  // yld zaid einc seed : the model's own Y(A) and Y(Z,A) tables after one event
  int za; double e; unsigned long seed; is >> za >> e >> seed;
  alive();
  gen.seed((unsigned)seed); dist.reset(); ndraw = 0;
  fissionFragmentType lf, hf;
  FissionFragments *ff = new FissionFragments(za, e, 0.0);
  ff->generateInitialFissionFragmentHistories(&lf, &hf, 1);
  fprintf(out, "{\"k\":\"yld\",\"za\":%d,\"einc\":%.17g,\"Ac\":%d,\"Ac0\":%d,\"Zc\":%d,\"eff\":%.17g", za, e, ff->Ac, ff->Ac0, ff->Zc, ff->incidentEnergy);
  std::vector<double> v(ff->YA, ff->YA + NUMA); arr("YA", v);
  v.clear(); for (int z = 0; z < NUMZ; z++) for (int a = 0; a < NUMA; a++) if (ff->YZA2[z][a] != 0.0) { v.push_back(z); v.push_back(a); v.push_back(ff->YZA2[z][a]); }
  arr("YZA", v);
  v.assign(ff->YZ, ff->YZ + NUMZ); arr("YZ", v);
  fputs("}\n", out);
  delete ff;
}
static void do_data(std::istringstream &is) {
  // data what zaid [energy]
  std::string what; int za; double e = 0; is >> what >> za >> e;
  alive();
  double r = NAN;
  if (what == "mass") r = getMassExcess(za);
  else if (what == "mass2") { bool f; r = mass_excess(za / 1000, za % 1000); }
  else if (what == "defo") r = getDeformation(za);
  else if (what == "temp") r = getTemperature(za, e);
  else if (what == "ldp") r = getLDP(za, e);
  else if (what == "kck") {
    ZAnumber q(za / 1000, za % 1000); LevelDensity l; getkcksystdat(&q, &l);
    fprintf(out, "{\"k\":\"data\",\"w\":\"kck\",\"za\":%d,\"e\":0,\"v\":0", za);
    frag("t", { l.pairing_energy, l.shell_correct, l.match_energy, l.a, l.temperature, l.E0 }); fputs("}\n", out); return;
  }
  else if (what == "sn") {
    // separation energies as the decay sets them up, e neutrons
    int n = (int)e; static Pdata pdt[MAX_CHANNEL];
    ncl[0].za.setZA(za / 1000, za % 1000); statSetupInitSystem(n, pdt);
    std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(ncl[i].cdt[neutron].binding_energy);
    fprintf(out, "{\"k\":\"data\",\"w\":\"sn\",\"za\":%d,\"e\":%d,\"v\":0", za, n); frag("t", v);
    ZAnumber q(za / 1000, za % 1000);
    v.clear(); for (double u = 1; u < 60; u += 3.7) v.push_back(statTotalNeutrons(u, &q)); frag("tot", v); fputs("}\n", out); return;
  }
  else { fprintf(out, "{\"err\":\"data\"}\n"); return; }
  fprintf(out, "{\"k\":\"data\",\"w\":\"%s\",\"za\":%d,\"e\":%.17g,\"v\":", what.c_str(), za, e); num(r); fputs("}\n", out);
}
static void do_levels(std::istringstream &is, bool ripl) {
  // levels Z A nemit : the discrete levels the cascade will use
  int Z, A, nemit; is >> Z >> A >> nemit;
  alive();
  for (int i = 0; i <= nemit; i++) { ncl[i].za.setZA(Z, A - i); ncl[i].max_energy = 5.0; }
  if (ripl) getRiplDiscreteLevels(ncl, nemit); else getDiscreteLevels(ncl, nemit);
  for (int i = 0; i <= nemit; i++) {
    Nucleus &n = ncl[i];
    fprintf(out, "{\"k\":\"levels\",\"Z\":%d,\"A\":%d,\"nd\":%d,\"lev\":[", Z, A - i, n.ndisc);
    for (int k = 0; k < n.ndisc; k++) {
      if (k) fputc(',', out);
      fputc('[', out); num(n.lev[k].energy); fputc(',', out); num(n.lev[k].spin);
      fprintf(out, ",%d,", n.lev[k].parity); num(n.lev[k].halflife); fputs(",[", out);
      for (int j = 0; j < n.lev[k].ngamma; j++) {
        if (j) fputc(',', out);
        fprintf(out, "[%d,", n.lev[k].fstate[j]); num(n.lev[k].branch[j]); fputc(',', out); num(n.lev[k].gratio[j]); fputc(']', out);
      }
      fputs("]]", out);
    }
    fputs("]}\n", out);
  }
}
#endif
#ifdef DRV_KERNELS
#include "kernels.inc"
#endif

int main(int argc, char **argv) {
  std::string datap = argc > 1 ? argv[1] : "/repo/data/";
  int fd = dup(1);
  out = fdopen(fd, "w");
  setvbuf(out, 0, _IOFBF, 1 << 16);
  int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul);
  setdatapath(datap);
  std::function<double(void)> f = draw;
  set_rng(f);
#ifdef CGMF_MONITOR
  cgmf_monitor_set(on_step);
#endif
  bool copen = false;
  std::map<int, cgmfEvent *> slots; std::map<int, cgmEvent *> gslots;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string c; is >> c;
    if (c.empty() || c[0] == '#') continue;
    if (c == "ev" || c == "cev" || c == "evk") {
      // ev zaid einc time window seed
      int za; double e, t, w; unsigned long seed; is >> za >> e >> t >> w >> seed;
      fprintf(out, "{\"k\":\"%s\",\"seed\":%lu,\"time\":%.17g,\"w\":%.17g", c.c_str(), seed, t, w); 
      gen.seed((unsigned)seed); dist.reset(); ndraw = 0;
      if (c == "cev") {
        if (cur) { delete cur; cur = 0; }
        cgmf_genfissevent(za, e, t, w); copen = true;
        dumpC();
      } else {
        if (copen) { cgmf_clean(); copen = false; }
        if (cur) { delete cur; cur = 0; }
        cur = new cgmfEvent(za, e, t, w);
        dump(cur);
      }
      put_steps();
      fprintf(out, ",\"draws\":%ld}\n", ndraw);
    } else if (c == "del") { if (cur) { delete cur; cur = 0; } fputs("{\"k\":\"del\"}\n", out);
    } else if (c == "cclean") { cgmf_clean(); copen = false; fputs("{\"k\":\"cclean\"}\n", out);
    } else if (c == "cleanup") { cgmf_cleanup(); fputs("{\"k\":\"cleanup\"}\n", out);
    } else if (c == "hostile") { is >> hostile; fprintf(out, "{\"k\":\"hostile\"}\n");
    } else if (c == "rss") {
      FILE *s = fopen("/proc/self/status", "r"); char b[256]; long kb = -1;
      while (s && fgets(b, sizeof b, s)) if (!strncmp(b, "VmRSS:", 6)) kb = atol(b + 6);
      if (s) fclose(s);
      struct mallinfo2 mi = mallinfo2();
      fprintf(out, "{\"k\":\"rss\",\"kb\":%ld,\"heap\":%zu}\n", kb, mi.uordblks + mi.hblkhd);
    } else if (c == "new") {
      // new slot zaid einc time window seed : several events alive at once
      int k, za; double e, t, w; unsigned long seed; is >> k >> za >> e >> t >> w >> seed;
      gen.seed((unsigned)seed); dist.reset(); ndraw = 0;
      if (slots.count(k)) { delete slots[k]; slots.erase(k); }
      slots[k] = new cgmfEvent(za, e, t, w);
      fprintf(out, "{\"k\":\"new\",\"slot\":%d,\"seed\":%lu", k, seed); dump(slots[k]); put_steps();
      fprintf(out, ",\"draws\":%ld}\n", ndraw);
    } else if (c == "show") {
      int k; is >> k;
      if (!slots.count(k)) fputs("{\"k\":\"show\",\"none\":1}\n", out);
      else { fprintf(out, "{\"k\":\"show\",\"slot\":%d", k); dump(slots[k]); fputs("}\n", out); }
    } else if (c == "free") {
      int k; is >> k;
      if (slots.count(k)) { delete slots[k]; slots.erase(k); }
      fputs("{\"k\":\"free\"}\n", out);
    } else if (c == "gnew") {
      int k, za; double e; unsigned long seed; is >> k >> za >> e >> seed;
      gen.seed((unsigned)seed); dist.reset(); ndraw = 0;
      if (gslots.count(k)) { delete gslots[k]; gslots.erase(k); }
      gslots[k] = new cgmEvent(za, e, 0.0);
#ifdef CGMF_MONITOR
      steps.clear();
#endif
      fprintf(out, "{\"k\":\"gnew\",\"nn\":%d,\"ng\":%d}\n", gslots[k]->getNeutronNu(), gslots[k]->getPhotonNu());
    } else if (c == "gfree") {
      int k; is >> k;
      if (gslots.count(k)) { delete gslots[k]; gslots.erase(k); }
      fputs("{\"k\":\"gfree\"}\n", out);
    } else if (c == "freeall") {
      for (auto &x : slots) delete x.second;
      for (auto &x : gslots) delete x.second;
      slots.clear(); gslots.clear();
      fputs("{\"k\":\"freeall\"}\n", out);
    } else if (c == "yields" || c == "cyields") {
      // yields zaid einc n file seed : public yields interface
      int za, n; double e; std::string fn; unsigned long seed; is >> za >> e >> n >> fn >> seed;
      if (copen) { cgmf_clean(); copen = false; }
      if (cur) { delete cur; cur = 0; }
      gen.seed((unsigned)seed); dist.reset(); ndraw = 0;
      if (c == "cyields") cgmf_genfissyields(za, e, n, fn.c_str());
      else { cgmfYields *y = new cgmfYields(za, e, n, fn); delete y; }
      fprintf(out, "{\"k\":\"yields\",\"draws\":%ld}\n", ndraw);
    } else if (c == "cgmpp") {
      // cgmpp za ex seed : the same decay through the C++ class
      int za; double ex; unsigned long seed; is >> za >> ex >> seed;
      gen.seed((unsigned)seed); dist.reset(); ndraw = 0;
      if (cur) { delete cur; cur = 0; }
      if (copen) { cgmf_clean(); copen = false; }
      cgmEvent *q = new cgmEvent(za, ex, 0.0);
      fprintf(out, "{\"k\":\"cgm\",\"za\":%d,\"ex\":%.17g,\"seed\":%lu", za, ex, seed);
      std::vector<double> g, n;
      for (int i = 0; i < q->getPhotonNu(); i++) g.push_back(q->getPhotonEnergy(i));
      for (int i = 0; i < q->getNeutronNu(); i++) n.push_back(q->getNeutronEnergy(i));
      arr("g", g); arr("n", n);
      fprintf(out, ",\"ng\":%d,\"nn\":%d", q->getPhotonNu(), q->getNeutronNu());
      put_steps();
      fprintf(out, ",\"draws\":%ld}\n", ndraw);
      delete q;
    } else if (c == "cgm") {
      // cgm za ex seed : compound-nucleus decay interface
      int za; double ex; unsigned long seed; is >> za >> ex >> seed;
      gen.seed((unsigned)seed); dist.reset(); ndraw = 0;
      if (cur) { delete cur; cur = 0; }
      if (copen) { cgmf_clean(); copen = false; }
      int ng = 0, nn = 0; double g[30], n[30];
      cgm(za, ex, &ng, g, &nn, n);
      fprintf(out, "{\"k\":\"cgm\",\"za\":%d,\"ex\":%.17g,\"seed\":%lu", za, ex, seed);
      arr("g", std::vector<double>(g, g + (ng < 30 ? ng : 30))); arr("n", std::vector<double>(n, n + (nn < 30 ? nn : 30)));
      fprintf(out, ",\"ng\":%d,\"nn\":%d", ng, nn);
      put_steps();
      fprintf(out, ",\"draws\":%ld}\n", ndraw);
#ifndef DRV_PUBLIC_ONLY
    } else if (c == "frag") { do_frag(is);
#ifdef CGMF_MONITOR
    } else if (c == "casc") { do_casc(is);
#endif
    } else if (c == "ff") { do_ff(is);
    } else if (c == "ffs") { do_ffs(is);
    } else if (c == "yld") { do_yld(is);
    } else if (c == "data") { do_data(is);
    } else if (c == "levels") { do_levels(is, false);
    } else if (c == "rlevels") { do_levels(is, true);
#endif
#ifdef DRV_KERNELS
    } else if (kernel_command(c, is)) {
#endif
    } else { fprintf(out, "{\"err\":\"unknown %s\"}\n", c.c_str()); }
    fflush(out);
  }
  fputs("{\"k\":\"end\"}\n", out); fflush(out);
  return 0;
}
