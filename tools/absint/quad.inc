  // Moment equations of an extracted quadrature rule.
  // exact integral of x^e over the reference element of topologyId/dim
  // prism: product; pyramid: (1-xn)^(|e'|+dim-1) weight
  // weighted families multiply each one-dimensional step with (2(1-t))^al
  static long double moment(unsigned topo, int dim, const std::vector<int>& e, int al) {
    if (dim == 0) return 1; int n = dim - 1; std::vector<int> sub(e.begin(), e.begin() + n); int s = 0; for (int x : sub) s += x;
    bool prism = ((topo | 1u) >> n) & 1; long double base = moment(topo & ((1u << n) - 1), n, sub, al); int k = e[n];
    // int_0^1 t^k (1-t)^m dt = k! m! / (k+m+1)!
    int mm = (prism ? 0 : s + n) + al; long double r = 1; for (int i = 1; i <= k; ++i) r *= (long double)i / (mm + i); r /= (k + mm + 1); for (int i = 0; i < al; ++i) r *= 2; return base * r;
  }
  // barycentric-like facet inequalities of the reference element: smallest slack of x
  static long double slack(unsigned topo, int dim, const std::vector<long double>& x, long double f) {
    if (dim == 0) return f; int n = dim - 1; bool prism = ((topo | 1u) >> n) & 1; long double s = std::min(x[n], f - x[n]); return std::min(s, slack(topo & ((1u << n) - 1), n, x, prism ? f : f - x[n]));
  }
  bool quad(int m, std::vector<Val>& a, Val& ret) {
    switch (m) {
      case V_RPT: { QP q; q.w = ldArg(a[0]); for (size_t i = 1; i < a.size(); ++i) q.x.push_back(ldArg(a[i])); rule.push_back(q); uint32_t l = anyLocOf(a[0]); if (l) ruleLoc = l; return true; }
      case V_RINSIDE: { // v_rinside(topologyId, dim, msg): recorded points lie in the closed element and are pairwise distinct; the points stay recorded
        unsigned topo = intArg(a[0]); int dim = intArg(a[1]); std::string msg = readStr(a[2]); if (muted || !res) return true;
        auto show = [&](const QP& q) { std::ostringstream o; o.precision(17); o << "point ("; for (int k = 0; k < dim; ++k) o << (k ? "," : "") << (double)q.x[k]; o << ")"; return o.str(); };
        bool bad = false; for (auto& q : rule) { ++res->obligations; ++res->rules[msg]; if ((int)q.x.size() != dim) throw Undecided("point of another dimension"); long double sl = slack(topo, dim, q.x, 1); if (sl >= -4e-16L) ++res->discharged; else if (!bad) { bad = true; violation("claim", msg + ": " + show(q) + " lies outside", ruleLoc); } }
        std::vector<const QP*> o; for (auto& q : rule) if (q.w != 0) o.push_back(&q); std::sort(o.begin(), o.end(), [](const QP* x, const QP* y) { return x->x < y->x; });
        ++res->obligations; ++res->rules[msg]; bad = false; for (size_t i = 1; i < o.size(); ++i) if (o[i]->x == o[i - 1]->x && !bad) { bad = true; violation("claim", msg + ": " + show(*o[i]) + " occurs twice", ruleLoc); } if (!bad) ++res->discharged;
        return true; }
      case V_RCHECK: { // v_rcheck(topologyId, dim, order, alpha, msg)
        unsigned topo = intArg(a[0]); int dim = intArg(a[1]), order = intArg(a[2]), al = intArg(a[3]); std::string msg = readStr(a[4]); auto pts = std::move(rule); rule.clear();
        if (muted || !res) return true;
        if (order < 0 || order > 2000) { ++res->obligations; ++res->rules[msg]; violation("claim", msg + ": order " + std::to_string(order), ruleLoc); return true; }
        // all exponents with |e| <= order; points with equal leading coordinates need no special care
        std::vector<int> e(dim, 0); size_t np = pts.size(); if (np == 0) { ++res->obligations; ++res->rules[msg]; violation("claim", msg + ": rule without points", ruleLoc); return true; }
        std::map<long double, int> zs; std::vector<int> zi(np); std::vector<double> z; // distinct values of the last coordinate
        for (size_t i = 0; i < np; ++i) { auto it = zs.emplace(pts[i].x[dim - 1], (int)z.size()); if (it.second) z.push_back((double)pts[i].x[dim - 1]); zi[i] = it.first->second; }
        std::vector<std::vector<double>> pw(order + 1, std::vector<double>(z.size(), 1)); // their powers
        for (int k = 1; k <= order; ++k) for (size_t i = 0; i < z.size(); ++i) pw[k][i] = pw[k - 1][i] * z[i];
        long checked = 0; bool bad = false; std::string first; double sumabs = 0; for (auto& q : pts) sumabs += fabs((double)q.w);
        std::function<void(int, int, std::vector<double>&)> rec = [&](int c, int left, std::vector<double>& acc) {
          if (bad) return;
          if (c == dim - 1) { std::vector<double> g(z.size(), 0); for (size_t i = 0; i < np; ++i) g[zi[i]] += acc[i];
            for (int k = 0; k <= left && !bad; ++k) { e[c] = k; double s = 0; for (size_t i = 0; i < g.size(); ++i) s += g[i] * pw[k][i];
              long double ex = moment(topo, dim, e, al); ++checked; long double err = fabsl(s - ex); if (!(err <= 4e-14L * sumabs)) { bad = true; std::ostringstream o; o << "monomial exponents ("; for (int k = 0; k < dim; ++k) o << (k ? "," : "") << e[k]; o << "): sum " << (double)s << " instead of " << (double)ex << " (error " << (double)err << ", " << np << " points)"; first = o.str(); } } e[c] = 0; return; }
          std::vector<double> nx(acc); for (int k = 0; k <= left; ++k) { e[c] = k; if (k) for (size_t i = 0; i < np; ++i) nx[i] *= (double)pts[i].x[c]; rec(c + 1, left - k, nx); } e[c] = 0; };
        std::vector<double> w; for (auto& p : pts) w.push_back(p.w);
        rec(0, order, w);
        res->obligations += checked; res->discharged += checked - (bad ? 1 : 0); res->rules[msg] += checked;
        if (bad) violation("claim", msg + ": " + first, ruleLoc);
        return true; }
      case V_HPSTR: { std::string s = readStr(a[0]); hp.push_back(parseDec(s)); ret = vInt(hp.size() - 1, 64); return true; }
      case V_HPD: { double v = ldArg(a[0]); hp.push_back(Q(v)); ret = vInt(hp.size() - 1, 64); return true; }
      case V_HPOP: { Q x = hp.at(intArg(a[1])), y = hp.at(intArg(a[2])), r; switch (intArg(a[0])) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; default: if (y == 0) throw Undecided("hp division by zero"); r = x / y; } hp.push_back(trimQ(r)); ret = vInt(hp.size() - 1, 64); return true; }
      case V_HPGET: { ret = vFp(hp.at(intArg(a[0])).get_d()); return true; }
      case V_HPPT: { hprule.push_back({hp.at(intArg(a[0])), hp.at(intArg(a[1]))}); return true; }
      case V_EQHP: { // v_hpeq(a,b,digits,msg)
        if (muted || !res) return true; Q d = abs(hp.at(intArg(a[0])) - hp.at(intArg(a[1]))); std::string msg = readStr(a[3]); ++res->obligations; ++res->rules[msg]; Q eps(1); for (int k = 0; k < intArg(a[2]); ++k) eps /= 10; if (d <= eps) ++res->discharged; else { char b[64]; snprintf(b, 64, "difference %.3g", d.get_d()); violation("claim", msg + ": " + b, 0); } return true; }
      case V_HPCHECK: { // v_hpcheck(weightExponent, order, digits, msg): sum w x^k == c * int x^k (1-x)^a
        int al = intArg(a[0]), order = intArg(a[1]), digits = intArg(a[2]); std::string msg = readStr(a[3]); auto pts = std::move(hprule); hprule.clear();
        if (muted || !res) return true;
        Q eps(1); for (int k = 0; k < digits; ++k) eps /= 10; Q scale = 1; for (int k = 0; k < al; ++k) scale *= 2; // tables integrate against (2(1-x))^a
        std::vector<Q> p; for (auto& x : pts) p.push_back(x.second);
        bool bad = false;
        for (int k = 0; k <= order; ++k) { Q s = 0; for (auto& v : p) s += v; // exact: k! a! / (k+a+1)!
          Q ex(1, 1); for (int i = 1; i <= al; ++i) ex *= Q(i, k + i); ex /= Q(k + al + 1); (void)scale; ++res->obligations; ++res->rules[msg]; Q err = abs(s - ex * hpscale);
          if (err <= eps) ++res->discharged; else if (!bad) { bad = true; char b[128]; snprintf(b, 128, "monomial x^%d: error %.3g", k, err.get_d()); violation("claim", msg + ": " + b, 0); }
          for (size_t i = 0; i < p.size(); ++i) p[i] = trimQ(p[i] * pts[i].first); }
        return true; }
    }
    return true;
  }
  uint32_t ruleLoc = 0; Q hpscale = 1;
  static Q trimQ(const Q& q) { // keep ~420 bits
    if (mpz_sizeinbase(q.get_den_mpz_t(), 2) < 500) return q; mpz_class n = q.get_num(); n <<= 440; mpz_class r; mpz_tdiv_q(r.get_mpz_t(), n.get_mpz_t(), q.get_den_mpz_t()); mpz_class d = 1; d <<= 440; Q x(r, d); x.canonicalize(); return x; }
  static Q parseDec(const std::string& s0) {
    std::string s; for (char c : s0) if (!isspace((unsigned char)c)) s += c; bool neg = false; size_t i = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; std::string dig; int frac = 0; bool dot = false; for (; i < s.size() && (isdigit((unsigned char)s[i]) || s[i] == '.'); ++i) { if (s[i] == '.') dot = true; else { dig += s[i]; if (dot) ++frac; } } int ex = 0; if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ex = atoi(s.c_str() + i + 1); } else if (i < s.size()) throw Undecided("number literal '" + s0.substr(0, 30) + "' has trailing characters"); if (dig.empty()) throw Undecided("empty number literal"); mpz_class n(dig, 10); Q r(n); int e = ex - frac; mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), 10, std::abs(e)); if (e >= 0) r *= Q(p); else r /= Q(p); return neg ? Q(-r) : r; }
