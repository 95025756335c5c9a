// Workload generator: random affine loop nests and scheduler configurations.
#include "gen.h"
#include <algorithm>
#include <sstream>
using std::string;
using std::to_string;
using std::vector;

namespace {
struct Loop {
  string lo, hi;
};
struct GStmt {
  vector<Loop> loops;
  vector<int> pos; // textual positions, pos.size() == loops.size()+1
};
struct G {
  Rng &r;
  Case &c;
  const GenCfg &cfg;
  int npar;
  vector<string> par;
  vector<GStmt> stmts;
  int budget;
  int skewp, constp, triap, multi;
  int negp = 0; // loops that start below zero
  string iter(int d) { return "i" + to_string(d); }
  string params() {
    string s = "[";
    for (int i = 0; i < npar; i++)
      s += (i ? ", " : "") + par[i];
    return s + "]";
  }
  Loop mkloop(int d) {
    Loop l;
    string ub = npar ? par[r.below(npar)] : to_string(r.range(2, 5));
    l.lo = r.chance(80) ? "0" : to_string(r.range(0, 2));
    if (negp && r.chance(negp))
      l.lo = to_string(r.range(-3, -1));
    l.hi = npar ? ub + " - " + to_string(r.chance(80) ? 1 : r.range(1, 2)) : ub;
    if (d > 0 && r.chance(triap)) {
      string o = iter((int)r.below(d));
      switch (r.below(4)) {
      case 0:
        l.lo = o;
        break;
      case 1:
        l.hi = o;
        break;
      case 2:
        l.lo = o + " + 1";
        break;
      default:
        l.lo = o + " - 1";
        l.hi = o + " + 1";
        break;
      }
    } else if (r.chance(constp)) {
      l.lo = to_string(r.range(0, 1));
      l.hi = to_string(r.range(2, 4));
    }
    return l;
  }
  void build(vector<Loop> loops, vector<int> pos, int depth, int maxd) {
    int n = 1 + (r.chance(multi) ? (int)r.below(2) : 0);
    for (int k = 0; k < n && budget > 0; k++) {
      vector<int> p = pos;
      p.push_back(k);
      bool leaf = depth >= maxd || (depth > 0 && r.chance(18)) ||
                  (depth == 0 && r.chance(3));
      if (leaf) {
        stmts.push_back({loops, p});
        budget--;
      } else {
        vector<Loop> l = loops;
        l.push_back(mkloop(depth));
        build(l, p, depth + 1, maxd);
      }
    }
  }
};
string term(int coef, const string &v, bool first) {
  if (coef == 0)
    return "";
  string s = coef < 0 ? (first ? "-" : " - ") : (first ? "" : " + ");
  int a = coef < 0 ? -coef : coef;
  if (a != 1)
    s += to_string(a) + "*";
  return s + v;
}
} // namespace

void gen_program(Rng &rng, Case &c, const GenCfg &cfg) {
  G g{rng, c, cfg, 0, {}, {}, 0, 0, 0, 0, 0};
  int x = (int)rng.below(100);
  g.npar = x < 15 ? 0 : (x < 75 ? 1 : 2);
  g.npar = std::min(g.npar, cfg.maxpar);
  // Many small statements, more parameters.
  bool wide = cfg.maxstmts >= 4 && rng.fork(31).chance(6);
  if (wide)
    g.npar = rng.fork(32).range(0, 3);
  if (rng.fork(33).chance(12))
    g.negp = 50;
  // Dependences that reach further.
  int reach = rng.fork(34).chance(10) ? 6 : 2;
  const char *names[] = {"N", "M", "T"};
  for (int i = 0; i < g.npar; i++)
    g.par.push_back(names[i]);
  int maxd = rng.chance(12) ? 1 : (rng.chance(60) ? 2 : 3);
  maxd = std::min(maxd, cfg.maxdepth);
  int want = 1 + (int)rng.below(maxd == 3 && !cfg.heavy ? 3 : cfg.maxstmts);
  want = std::min(want, cfg.maxstmts);
  if (wide) {
    maxd = rng.fork(35).chance(70) ? 1 : 2;
    want = maxd == 1 ? rng.fork(36).range(6, 12) : rng.fork(36).range(5, 7);
  }
  g.budget = want;
  g.constp = rng.chance(30) ? 25 : 5;
  g.triap = rng.chance(40) ? 45 : 0;
  g.multi = rng.chance(50) ? 60 : 25;
  // Every loop must run at least once for large parameters: see Loop::hi.
  // Top level: keep adding nests until the statement budget is used.
  int top = 0;
  while (g.budget > 0) {
    vector<int> pos{top++};
    if (rng.chance(4)) {
      g.stmts.push_back({{}, pos});
      g.budget--;
    } else {
      g.build({g.mkloop(0)}, pos, 1, rng.chance(75) ? maxd : rng.range(1, maxd));
    }
  }
  int ns = (int)g.stmts.size();
  int md = 0;
  for (auto &s : g.stmts)
    md = std::max(md, (int)s.loops.size());

  // Arrays.
  int na = 1 + (int)rng.below(std::min(wide ? 8 : 3, ns + 1));
  vector<int> adim(na);
  for (auto &d : adim)
    d = rng.chance(8) ? 0 : rng.range(1, std::max(1, md));

  string P = g.params();
  for (int k = 0; k < ns; k++) {
    GStmt &s = g.stmts[k];
    int d = (int)s.loops.size();
    string name = "S_" + to_string(k), it;
    for (int i = 0; i < d; i++)
      it += (i ? ", " : "") + g.iter(i);
    string inst = name + "[" + it + "]";
    string dom;
    for (int i = 0; i < d; i++)
      dom += (i ? " and " : "") + s.loops[i].lo + " <= " + g.iter(i) +
             " <= " + s.loops[i].hi;
    c.add("domain", P + " -> { " + inst + (d ? " : " + dom : "") + " }");
    string sc;
    for (int i = 0; i < md; i++) {
      sc += to_string(i < (int)s.pos.size() ? s.pos[i] : 0) + ", ";
      sc += (i < d ? g.iter(i) : string("0")) + ", ";
    }
    sc += to_string(md < (int)s.pos.size() ? s.pos[md] : 0);
    c.add("sched", P + " -> { " + inst + " -> [" + sc + "] }");
    auto access = [&](int a) {
      string t = "A" + to_string(a) + "[";
      int rot = rng.chance(15) ? 1 : 0;
      for (int j = 0; j < adim[a]; j++) {
        string e;
        vector<int> co(d, 0);
        int cst = 0;
        int y = (int)rng.below(100);
        if (d == 0 || y < 6) {
          cst = rng.range(0, 3);
        } else {
          int base = (j + rot) % d;
          if (rng.chance(6))
            base = (int)rng.below(d);
          co[base] = 1;
          if (y < 14 && d > 1)
            co[(base + 1) % d] = rng.chance(50) ? 1 : -1;
          else if (y < 17)
            co[base] = rng.fork(41).chance(80) ? 2 : 3;
          else if (y < 20)
            co[base] = -1;
          if (rng.chance(45))
            cst = rng.range(-reach, reach);
        }
        bool first = true;
        for (int i = 0; i < d; i++) {
          string tt = term(co[i], g.iter(i), first);
          if (!tt.empty())
            first = false;
          e += tt;
        }
        if (first)
          e = to_string(cst);
        else if (cst)
          e += (cst < 0 ? " - " : " + ") + to_string(cst < 0 ? -cst : cst);
        if (!first && g.npar && rng.chance(2))
          e += " + " + g.par[0];
        t += (j ? ", " : "") + e;
      }
      return t + "]";
    };
    int wa = (int)rng.below(na);
    c.add("write", P + " -> { " + inst + " -> " + access(wa) + " }");
    if (rng.chance(4))
      c.add("write",
            P + " -> { " + inst + " -> " + access((int)rng.below(na)) + " }");
    int nr = (int)rng.below(wide ? 3 : 4);
    for (int q = 0; q < nr; q++)
      c.add("read", P + " -> { " + inst + " -> " +
                        access(rng.chance(45) ? wa : (int)rng.below(na)) +
                        " }");
  }
  // Concrete parameter values for the simulated machine.
  int base = md >= 3 ? rng.range(2, 5) : rng.range(2, 9);
  if (reach > 2 && md < 3)
    base += 3;
  for (int i = 0; i < g.npar; i++)
    c.add("param", g.par[i] + " " + to_string(rng.chance(70) ? base : rng.range(1, md >= 3 ? 5 : 9)));
}

// ------------------------------------------------------------- kernels
// Classic loop nests (stencils, linear algebra, ...), perturbed.
namespace {
struct KStmt {
  const char *loops; // it:lo:hi,...
  const char *pos;   // textual positions, one more than loops
  const char *writes, *reads;
};
struct Kernel {
  const char *name;
  int npar;
  vector<KStmt> st;
};
const vector<Kernel> &kernels() {
  static const vector<Kernel> k = {
      {"jac1d-imper", 2,
       {{"t:0:T-1,i:1:N-2", "0,0,0", "B[i]", "A[i-1];A[i];A[i+1]"},
        {"t:0:T-1,i:1:N-2", "0,1,0", "A[i]", "B[i]"}}},
      {"jac1d", 2,
       {{"t:0:T-1,i:1:N-2", "0,0,0", "A[t+1,i]", "A[t,i-1];A[t,i];A[t,i+1]"}}},
      {"heat2d", 2,
       {{"t:0:T-1,i:1:N-2,j:1:N-2", "0,0,0,0", "A[t+1,i,j]",
         "A[t,i-1,j];A[t,i,j];A[t,i+1,j];A[t,i,j-1];A[t,i,j+1]"}}},
      {"jac2d-imper", 2,
       {{"t:0:T-1,i:1:N-2,j:1:N-2", "0,0,0,0", "B[i,j]",
         "A[i,j];A[i-1,j];A[i+1,j];A[i,j-1];A[i,j+1]"},
        {"t:0:T-1,i:1:N-2,j:1:N-2", "0,1,0,0", "A[i,j]", "B[i,j]"}}},
      {"seidel", 2,
       {{"t:0:T-1,i:1:N-2,j:1:N-2", "0,0,0,0", "A[i,j]",
         "A[i-1,j-1];A[i-1,j];A[i,j-1];A[i,j];A[i,j+1];A[i+1,j];A[i+1,j+1]"}}},
      {"seidel1d", 2,
       {{"t:0:T-1,i:1:N-2", "0,0,0", "A[i]", "A[i-1];A[i];A[i+1]"}}},
      {"sor", 1,
       {{"i:1:N-1,j:1:N-1", "0,0,0", "A[i,j]", "A[i-1,j];A[i,j-1]"}}},
      {"fdtd1d", 2,
       {{"t:0:T-1,i:1:N-1", "0,0,0", "E[i]", "E[i];H[i];H[i-1]"},
        {"t:0:T-1,i:0:N-2", "0,1,0", "H[i]", "H[i];E[i+1];E[i]"}}},
      {"fdtd2d", 2,
       {{"t:0:T-1,j:0:N-1", "0,0,0", "Y[0,j]", ""},
        {"t:0:T-1,i:1:N-1,j:0:N-1", "0,1,0,0", "Y[i,j]", "Y[i,j];H[i,j];H[i-1,j]"},
        {"t:0:T-1,i:0:N-1,j:1:N-1", "0,2,0,0", "X[i,j]", "X[i,j];H[i,j];H[i,j-1]"},
        {"t:0:T-1,i:0:N-2,j:0:N-2", "0,3,0,0", "H[i,j]",
         "H[i,j];X[i,j+1];X[i,j];Y[i+1,j];Y[i,j]"}}},
      {"matmul", 1,
       {{"i:0:N-1,j:0:N-1,k:0:N-1", "0,0,0,0", "C[i,j]", "C[i,j];A[i,k];B[k,j]"}}},
      {"matmul-init", 1,
       {{"i:0:N-1,j:0:N-1", "0,0,0", "C[i,j]", ""},
        {"i:0:N-1,j:0:N-1,k:0:N-1", "0,0,1,0", "C[i,j]", "C[i,j];A[i,k];B[k,j]"}}},
      {"2mm", 1,
       {{"i:0:N-1,j:0:N-1,k:0:N-1", "0,0,0,0", "C[i,j]", "C[i,j];A[i,k];B[k,j]"},
        {"i:0:N-1,j:0:N-1,k:0:N-1", "1,0,0,0", "D[i,j]", "D[i,j];C[i,k];E[k,j]"}}},
      {"mvt", 1,
       {{"i:0:N-1,j:0:N-1", "0,0,0", "X[i]", "X[i];A[i,j];Y[j]"},
        {"i:0:N-1,j:0:N-1", "1,0,0", "Z[i]", "Z[i];A[j,i];W[j]"}}},
      {"gemver", 1,
       {{"i:0:N-1,j:0:N-1", "0,0,0", "B[i,j]", "A[i,j];U[i];V[j]"},
        {"i:0:N-1,j:0:N-1", "1,0,0", "X[i]", "X[i];B[j,i];Y[j]"},
        {"i:0:N-1", "2,0", "X[i]", "X[i];Z[i]"},
        {"i:0:N-1,j:0:N-1", "3,0,0", "W[i]", "W[i];B[i,j];X[j]"}}},
      {"lu", 1,
       {{"k:0:N-1,j:k+1:N-1", "0,0,0", "A[k,j]", "A[k,j];A[k,k]"},
        {"k:0:N-1,i:k+1:N-1,j:k+1:N-1", "0,1,0,0", "A[i,j]", "A[i,j];A[i,k];A[k,j]"}}},
      {"trisolv", 1,
       {{"i:0:N-1", "0,0", "X[i]", "C[i]"},
        {"i:0:N-1,j:0:i-1", "0,1,0", "X[i]", "X[i];L[i,j];X[j]"},
        {"i:0:N-1", "0,2", "X[i]", "X[i];L[i,i]"}}},
      {"cholesky", 1,
       {{"i:0:N-1", "0,0", "P[i]", "A[i,i]"},
        {"i:0:N-1,j:0:i-1", "0,1,0", "P[i]", "P[i];A[i,j]"},
        {"i:0:N-1", "0,2", "A[i,i]", "P[i]"},
        {"i:0:N-1,j:i+1:N-1,k:0:i-1", "0,3,0,0", "A[j,i]", "A[j,i];A[j,k];A[i,k];A[i,i]"}}},
      {"floyd", 1,
       {{"k:0:N-1,i:0:N-1,j:0:N-1", "0,0,0,0", "A[i,j]", "A[i,j];A[i,k];A[k,j]"}}},
      {"covar", 1,
       {{"j:0:N-1", "0,0", "M[j]", ""},
        {"j:0:N-1,i:0:N-1", "0,1,0", "M[j]", "M[j];D[i,j]"},
        {"i:0:N-1,j:0:N-1", "1,0,0", "D[i,j]", "D[i,j];M[j]"}}},
      {"adi", 2,
       {{"t:0:T-1,i:0:N-1,j:1:N-1", "0,0,0,0", "X[i,j]", "X[i,j];X[i,j-1];A[i,j]"},
        {"t:0:T-1,i:1:N-1,j:0:N-1", "0,1,0,0", "X[i,j]", "X[i,j];X[i-1,j];A[i,j]"}}},
      {"tce", 1,
       {{"a:0:N-1,b:0:N-1", "0,0,0", "T[a,b]", "T[a,b];A[a,b]"},
        {"a:0:N-1,b:0:N-1,c:0:N-1", "1,0,0,0", "B[a,b]", "B[a,b];T[a,c];C[c,b]"}}},
      {"sweep-up-down", 1,
       {{"i:1:N-1", "0,0", "A[i]", "A[i-1]"},
        {"i:1:N-1", "1,0", "A[N-1-i]", "A[N-i]"}}},
      {"multi-loop-param", 2,
       {{"i:0:N-1,j:0:T-1", "0,0,0", "A[i,j]", "A[i-1,j]"},
        {"i:0:N-1,j:0:T-1", "1,0,0", "B[i,j]", "A[i,j];B[i,j-1]"},
        {"i:0:N-1,j:0:T-1", "2,0,0", "C[i,j]", "B[i,j];C[i-1,j-1]"}}},
      {"dsyrk-like", 1,
       {{"i:0:N-1,j:i:N-1,k:0:N-1", "0,0,0,0", "C[i,j]", "C[i,j];A[i,k];A[j,k]"}}},
      {"wave-2deg", 1,
       {{"i:1:N-1,j:1:N-1,k:1:N-1", "0,0,0,0", "A[i,j,k]",
         "A[i-1,j,k];A[i,j-1,k];A[i,j,k-1]"}}},
      {"doitgen", 1,
       {{"r:0:N-1,q:0:N-1,p:0:N-1", "0,0,0,0", "S[r,q,p]", "A[r,q,p];C[p]"},
        {"r:0:N-1,q:0:N-1,p:0:N-1", "0,0,1,0", "A[r,q,p]", "S[r,q,p]"}}},
      {"corcol", 2,
       {{"i:0:N-1,j:0:T-1", "0,0,0", "S[i]", "S[i];D[i,j]"},
        {"i:0:N-1,j:0:T-1", "1,0,0", "D[i,j]", "D[i,j];S[i]"},
        {"i:0:N-1", "2,0", "V[i]", "D[i,0]"}}},
      {"strided", 1, {{"i:0:N-1,j:0:N-1", "0,0,0", "A[2*i+j]", "A[2*i+j-1]"}}},
      {"inner-reduction", 2,
       {{"t:0:T-1,i:0:N-1", "0,0,0", "s[]", "s[];A[t,i]"},
        {"t:0:T-1,i:0:N-1", "0,1,0", "A[t+1,i]", "s[];A[t,i]"}}},
  };
  return k;
}
vector<string> split(const string &s, char d) {
  vector<string> r;
  string x;
  std::istringstream is(s);
  while (std::getline(is, x, d))
    r.push_back(x);
  return r;
}
} // namespace

void gen_kernel(Rng &rng, Case &c) {
  const Kernel &k = kernels()[rng.below(kernels().size())];
  c.add("kernel", k.name);
  bool perturb = rng.chance(50);
  string P = k.npar == 1 ? "[N]" : "[T, N]";
  vector<KStmt> st = k.st;
  if (perturb && st.size() > 1 && rng.chance(25))
    st.erase(st.begin() + (long)rng.below(st.size()));
  size_t md = 0;
  for (auto &s : st)
    md = std::max(md, split(s.loops, ',').size());
  for (size_t q = 0; q < st.size(); q++) {
    auto loops = split(st[q].loops, ',');
    auto pos = split(st[q].pos, ',');
    string it, dom, sc;
    for (size_t i = 0; i < loops.size(); i++) {
      auto f = split(loops[i], ':');
      it += (i ? ", " : "") + f[0];
      if (perturb && rng.chance(8))
        f[2] += " + 1";
      dom += (i ? " and " : "") + f[1] + " <= " + f[0] + " <= " + f[2];
    }
    string inst = "S_" + to_string(q) + "[" + it + "]";
    for (size_t i = 0; i < md; i++) {
      sc += (i < pos.size() ? pos[i] : "0") + ", ";
      sc += (i < loops.size() ? split(loops[i], ':')[0] : string("0")) + ", ";
    }
    sc += md < pos.size() ? pos[md] : "0";
    c.add("domain", P + " -> { " + inst + " : " + dom + " }");
    c.add("sched", P + " -> { " + inst + " -> [" + sc + "] }");
    auto acc = [&](string a) {
      if (perturb && rng.chance(15)) { // shift one subscript
        size_t e = a.find_first_of(",]");
        if (rng.chance(50) && e != string::npos && a[e] == ',')
          e = a.find_first_of(",]", e + 1);
        if (e != string::npos && e > 0 && a[e - 1] != '[')
          a.insert(e, rng.chance(50) ? "+1" : "-1");
      }
      return P + " -> { " + inst + " -> " + a + " }";
    };
    // Subscript lists use ',' inside brackets and ';' between accesses.
    for (auto &a : split(st[q].writes, ';'))
      c.add("write", acc(a));
    for (auto &a : split(st[q].reads, ';')) {
      if (perturb && rng.chance(10))
        continue;
      c.add("read", acc(a));
    }
  }
  int n = md >= 3 ? rng.range(3, 6) : rng.range(4, 12);
  if (k.npar == 2)
    c.add("param", "T " + to_string(md >= 3 ? rng.range(1, 4) : rng.range(1, 8)));
  c.add("param", "N " + to_string(n));
}

// Perfect nests of up to four loops with uniform dependences.
void gen_uniform(Rng &rng, Case &c) {
  int d = rng.chance(35) ? 4 : rng.chance(60) ? 3 : 2;
  int ns = rng.chance(70) ? 1 : 2;
  int npar = rng.chance(30) ? 0 : rng.chance(70) ? 1 : rng.chance(60) ? 2 : 3;
  const char *names[] = {"N", "M", "T"};
  string P = "[";
  for (int i = 0; i < npar; i++)
    P += (i ? ", " : "") + string(names[i]);
  P += "]";
  bool imper = rng.chance(25); // the array has no time dimension
  bool bands = rng.chance(30); // zero out some dimensions of the distances
  vector<int> act((size_t)d, 1);
  if (bands)
    for (auto &a : act)
      a = rng.chance(65);
  vector<string> hi;
  for (int i = 0; i < d; i++)
    hi.push_back(npar ? names[rng.below((uint64_t)npar)] + string(" - 1")
                      : to_string(d == 4 ? 2 : rng.range(2, 5)));
  bool fused = rng.chance(60);
  for (int k = 0; k < ns; k++) {
    string it, dom, sc;
    for (int i = 0; i < d; i++) {
      string v = "i" + to_string(i);
      it += (i ? ", " : "") + v;
      string lo = i && rng.chance(6) ? "i" + to_string(rng.below((uint64_t)i)) : "0";
      dom += (i ? " and " : "") + lo + " <= " + v + " <= " + hi[(size_t)i];
      sc += string(i == 0 && !fused ? to_string(k) : "0") + ", " + v + ", ";
    }
    string inst = "S_" + to_string(k) + "[" + it + "]";
    c.add("domain", P + " -> { " + inst + " : " + dom + " }");
    c.add("sched", P + " -> { " + inst + " -> [" + sc + to_string(fused ? k : 0) + "] }");
    auto acc = [&](int a, bool shift) {
      string t = "A" + to_string(a) + "[";
      bool first = true;
      for (int i = imper ? 1 : 0; i < d; i++) {
        int o = shift && act[(size_t)i] && rng.chance(55) ? rng.range(-2, 1) : 0;
        t += (first ? "" : ", ") + string("i") + to_string(i) +
             (o ? (o < 0 ? " - " : " + ") + to_string(o < 0 ? -o : o) : "");
        first = false;
      }
      return P + " -> { " + inst + " -> " + t + "] }";
    };
    int wa = ns == 1 ? 0 : rng.chance(70) ? k : 0;
    c.add("write", acc(wa, false));
    int nr = rng.range(1, d == 4 ? 4 : 5);
    for (int q = 0; q < nr; q++)
      c.add("read", acc(rng.chance(60) ? wa : (int)rng.below((uint64_t)ns), true));
  }
  for (int i = 0; i < npar; i++)
    c.add("param", names[i] + string(" ") + to_string(d == 4 ? rng.range(2, 4) : rng.range(2, 6)));
}

static void opt(Case &c, const char *n, long v) {
  c.add("opt", string(n) + " " + to_string(v));
}

void gen_options(Rng &r, Case &c, OptProfile p) {
  bool dfp = p == OPT_DFP ||
             (p == OPT_ANY && (r.fork(502).chance(8) || getenv("DFP")));
  for (auto &l : c.kv) // too slow for deep nests
    if (dfp && l.first == "domain" && l.second.find("i3") != string::npos)
      dfp = false;
  opt(c, "isldepaccesswise", 0);
  int tile = p == OPT_TILE ? 1 : (p == OPT_PLAIN ? 0 : r.chance(60));
  opt(c, "tile", tile);
  int par = p == OPT_PAR ? 1 : (p == OPT_PLAIN ? r.chance(50) : r.chance(80));
  if (!par)
    opt(c, "parallel", 0);
  if (r.chance(15))
    opt(c, "innerpar", 1);
  if (par && r.chance(25))
    opt(c, "multipar", 1);
  if (tile && r.chance(20))
    opt(c, "second_level_tile", 1);
  if (r.chance(30))
    opt(c, "diamondtile", 0);
  else if (r.chance(15))
    opt(c, "fulldiamondtile", 1);
  if (r.chance(25))
    opt(c, "intratileopt", 0);
  int f = (int)r.below(100);
  if (f < 25)
    opt(c, "fuse", 0); // none
  else if (f < 45)
    opt(c, "fuse", 1); // max
  if (r.chance(5))
    opt(c, "nodepbound", 1);
  if (r.chance(8))
    opt(c, "coeff_bound", r.range(1, 4));
  if (r.chance(15))
    opt(c, "flic", 1);
  if (r.chance(8))
    opt(c, "lastwriter", 1);
  if (r.chance(10))
    opt(c, "rar", 1);
  if (dfp) {
    opt(c, "dfp", 1);
    opt(c, "glpk", 1);
    if (r.chance(50))
      opt(c, "islsolve", 0);
    if (r.chance(25))
      opt(c, "ilp", 1);
    else
      opt(c, "lp", 1);
    if (r.chance(30))
      opt(c, "lpcolour", 1);
    if (r.chance(45))
      opt(c, "scc_cluster", 1);
    if (r.chance(20)) {
      opt(c, "fuse", 3); // typed
      opt(c, "scc_cluster", 1);
    }
    if (r.chance(15)) {
      opt(c, "hybridcut", 1);
      opt(c, "scc_cluster", 1);
    }
    if (r.chance(15))
      opt(c, "delayed_cut", 1);
  } else {
    if (r.fork(503).chance(getenv("PERCC") ? 100 : 8))
      opt(c, "per_cc_obj", 1);
    int s = (int)r.below(100);
    if (s < 10)
      opt(c, "glpk", 1);
    else if (s < 20) {
      opt(c, "islsolve", 0);
      opt(c, "pipsolve", 1);
    }
  }
  Rng x = r.fork(501);
  if (tile && x.chance(8)) { // tile size selection model (needs accesses)
    opt(c, "find_tile_sizes", 1);
    if (x.chance(50))
      opt(c, "cache_size", 256 << x.below(8));
    if (x.chance(30))
      opt(c, "data_element_size", 4 << x.below(3));
  }
  if (x.chance(20))
    opt(c, "isldepcoalesce", 1);
  if (x.chance(15))
    opt(c, "prevector", 0);
  if (x.chance(15)) {
    opt(c, "unrolljam", 1);
    opt(c, "ufactor", 2 << x.below(3));
  }
  if (x.chance(getenv("DBG") ? 100 : 2) && !dfp) { // GLPK's own messages stay switched on or off
    opt(c, "debug", 1);
    if (x.chance(25))
      opt(c, "moredebug", 1);
  }
  if (x.chance(3))
    opt(c, "time", 1);
  opt(c, "silent", r.chance(50));
}
