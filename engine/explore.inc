// ------------------------------------------------------------------ exploration
struct Item { std::vector<u64> in; std::vector<PfxEnt> pfx;  int tries = 0; };
static int g_pipe = -1;
static bool g_finishing = false;
static std::string g_out;
static void put(const void * p, size_t n) { g_out.append((const char *)p, n); }
template <class T> static void putT(const T & t) { put(&t, sizeof t); }
static void putS(const std::string & s)
{
  u32 n = s.size();
  putT(n);
  put(s.data(), n);
}
static void flushOut()
{
  size_t off = 0;
  while (off < g_out.size()) {
    ssize_t n = write(g_pipe, g_out.data() + off, g_out.size() - off);
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) _exit(96);
    off += n;
  }
}
static std::vector<u64> * varset(E e, std::unordered_map<E, std::vector<u64>> & memo)
{
  auto it = memo.find(e);
  if (it != memo.end()) return &it->second;
  std::vector<u64> r((g_vars.size() + 63) / 64, 0);
  if (e->op == OP_VAR) r[e->aux / 64] |= 1ULL << (e->aux % 64);
  for (int i = 0; i < e->nk; i++) {
    auto * k = varset(e->k[i], memo);
    for (size_t j = 0; j < r.size(); j++) r[j] |= (*k)[j];
  }
  return &(memo[e] = r);
}
static bool opt_noslice = false;
static u64 opt_maxflip = 0;
[[noreturn]] static void finish()
{
  if (g_finishing) _exit(95);
  g_finishing = true;
  g_on = false;
  alarm(0);
  Z3_config cfg = Z3_mk_config();
  zc = Z3_mk_context(cfg);
  Z3_set_error_handler(zc, z3err);
  S_.paths = 1;
  S_.asym = st_assert_sym;
  S_.aconc = st_assert_conc;
  S_.pins = g_pins;
  S_.unsup = g_unsup;
  S_.mism = g_concmis;
  S_.diverged = g_diverged;
  std::unordered_map<E, std::vector<u64>> vs;
  std::vector<Item> news;
  std::vector<PfxEnt> pfx;
  size_t nv = (g_vars.size() + 63) / 64;
  if (g_diverged) g_path.clear();
  for (size_t i = 0; i < g_path.size(); i++) {
    Ent & en = g_path[i];
    S_.branches++;
    size_t pos = pfx.size();
    if (pos >= g_bound && en.kind != 1 && en.kind != 3) {
      // slice the prefix
      Conds cs;
      std::vector<u64> cur = *varset(en.cond, vs);
      std::vector<char> inS(i, 0);
      bool ch = true;
      while (ch) {
        ch = false;
        for (size_t j = 0; j < i; j++)
          if (!inS[j]) {
            auto * v = varset(g_path[j].cond, vs);
            bool hit = opt_noslice;
            for (size_t w = 0; w < nv && !hit; w++) hit = (*v)[w] & cur[w];
            if (hit) {
              inS[j] = 1;
              ch = true;
              for (size_t w = 0; w < nv; w++) cur[w] |= (*v)[w];
            }
          }
      }
      for (size_t j = 0; j < i; j++)
        if (inS[j]) cs.push_back({g_path[j].cond, g_path[j].taken});
      // assumptions recorded later on the path do not constrain this flip
      cs.push_back({en.cond, !en.taken});
      std::vector<u64> in = g_in;
      int r = solve(cs, in);
      if (r == 0 && en.site == 0xa55f) S_.assert_unsat++;
      if (r < 0) {
        char b[64];
        snprintf(b, sizeof b, "unknown@site%x", en.site);
        g_native[b]++;
      }
      if (r == 1) {
        Item it;
        it.in = in;
        it.pfx = pfx;
        if (en.kind == 0) it.pfx.push_back({0, (u8)!en.taken, (u32)en.cond->hash, 0, en.site});
        else if (en.kind == 4) it.pfx.push_back({3, (u8)!en.taken, (u32)en.cond->hash, 0, en.site});
        else it.pfx.push_back({1, 0, (u32)en.cond->hash, en.pv, en.site});
        news.push_back(std::move(it));
      }
    }
    pfx.push_back({en.kind, en.taken, (u32)en.cond->hash, en.pv, en.site});
  }
  putT(S_);
  putS(g_viol);
  putS(g_viol_detail);
  u32 n = g_vars.size();
  putT(n);
  for (auto & v : g_vars) {
    putS(v.name);
    putT(v.bits);
  }
  n = g_in.size();
  putT(n);
  for (auto v : g_in) putT(v);
  n = g_cover.size();
  putT(n);
  for (auto & c : g_cover) putS(c);
  n = g_native.size();
  putT(n);
  for (auto & c : g_native) {
    putS(c.first);
    putT(c.second);
  }
  n = g_assert_labels.size();
  putT(n);
  for (auto & c : g_assert_labels) {
    putS(c.first);
    putT(c.second);
  }
  n = news.size();
  putT(n);
  for (auto & it : news) {
    u32 k = it.in.size();
    putT(k);
    put(it.in.data(), 8 * k);
    k = it.pfx.size();
    putT(k);
    put(it.pfx.data(), sizeof(PfxEnt) * k);
  }
  putT((u32)0xD04E);
  flushOut();
  _exit(0);
}
static void onsig(int s)
{
  if (g_finishing) {
    _exit(94);
  }
  g_on = false;
  g_viol = s == SIGALRM ? "path-timeout" : s == SIGFPE ? "crash:SIGFPE" : s == SIGABRT ? "crash:abort" : "crash:SIGSEGV";
  finish();
}
static void onterm()
{
  if (g_finishing) _exit(93);
  g_on = false;
  g_viol = "uncaught-exception";
  if (auto * t = abi::__cxa_current_exception_type()) {
    g_viol_detail = t->name();
    try {
      throw;
    } catch (const std::exception & e) {
      g_viol_detail += std::string(": ") + e.what();
    } catch (...) {
    }
  }
  finish();
}
struct Child { pid_t pid; int fd; std::string buf; Item item; double t0; };

int main(int argc, char ** argv)
{
  std::string harness, outfile, violdir = ".", known;
  int jobs = 8;
  double budget = 600, pathto = 60;
  u64 maxpaths = 1000000;
  bool bfs = false, list = false, keepgoing = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--harness") harness = nx();
    else if (a == "--out") outfile = nx();
    else if (a == "--viol") violdir = nx();
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--max-paths") maxpaths = atoll(nx().c_str());
    else if (a == "--qtimeout") opt_qtimeout = atoi(nx().c_str());
    else if (a == "--full") opt_full = atoi(nx().c_str());
    else if (a == "--path-timeout") pathto = atof(nx().c_str());
    else if (a == "--bfs") bfs = true;
    else if (a == "--known") known = nx();  // ;-separated labels that do not stop exploration
    else if (a == "--list") list = true;
    else if (a == "--keep-going") keepgoing = true;
    else if (a == "--no-slice") opt_noslice = true;
    else if (a == "--no-cvc5") opt_cvc5 = false;
  }
  if (list) {
    for (auto & r : regs()) printf("%s\n", r.name);
    return 0;
  }
  void (*fn)() = nullptr;
  for (auto & r : regs())
    if (harness == r.name) fn = r.fn;
  if (!fn) {
    fprintf(stderr, "no harness %s\n", harness.c_str());
    return 2;
  }
  g_pages = new std::unordered_map<u64, Page *>();
  stkInit();
  g_cache = (SharedCache *)mmap(nullptr, sizeof(SharedCache), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::deque<Item> work;
  work.push_back({});
  std::vector<Child> ch;
  Stats tot;
  std::map<std::string, u64> native, labels;
  std::set<std::string> covers;
  std::map<std::string, std::string> viols;  // label -> input file
  std::vector<std::string> samples;
  u64 next_sample = 0;
  u64 errors = 0, retried = 0;
  std::map<int, u64> errcodes;
  double t0 = now();
  bool stop = false, incomplete = false;
  std::set<std::string> knownset;
  {
    size_t p = 0;
    while (p < known.size()) {
      size_t q = known.find(';', p);
      if (q == std::string::npos) q = known.size();
      knownset.insert(known.substr(p, q - p));
      p = q + 1;
    }
  }
  while (!work.empty() || !ch.empty()) {
    while (!stop && !work.empty() && (int)ch.size() < jobs) {
      Item it;
      if (bfs) {
        it = std::move(work.front());
        work.pop_front();
      } else {
        it = std::move(work.back());
        work.pop_back();
      }
      int p[2];
      if (pipe(p)) { perror("pipe"); return 2; }
      fflush(stdout);
      fflush(stderr);
      pid_t pid = fork();
      if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        for (auto & c : ch) close(c.fd);
        close(p[0]);
        g_pipe = p[1];
        g_in = it.in;
        g_pfx = it.pfx;
        g_bound = it.pfx.size();
        struct rlimit rl = {6ULL << 30, 6ULL << 30};
        setrlimit(RLIMIT_AS, &rl);
        if (!getenv("SYM_DEBUG")) {
          int dn = open("/dev/null", O_WRONLY);
          dup2(dn, 1);
          if (!getenv("SYM_SOLVE") && !getenv("SYM_PINS")) dup2(dn, 2);
        }
        stack_t ss;
        ss.ss_size = 1 << 22;
        ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        ss.ss_flags = 0;
        sigaltstack(&ss, nullptr);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = onsig;
        sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
        std::set_terminate(onterm);
        alarm((unsigned)pathto);
        g_on = true;
        fn();
        finish();
      }
      close(p[1]);
      ch.push_back({pid, p[0], {}, std::move(it), now()});
    }
    if (ch.empty()) break;
    std::vector<pollfd> pf;
    for (auto & c : ch) pf.push_back({c.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    for (size_t i = 0; i < ch.size();) {
      Child & c = ch[i];
      bool eof = false;
      size_t k = 0;
      while (k < pf.size() && pf[k].fd != c.fd) k++;
      if (k < pf.size() && pf[k].revents) {
        char buf[65536];
        ssize_t n = read(c.fd, buf, sizeof buf);
        if (n > 0) c.buf.append(buf, n);
        else eof = true;
      }
      double limit = pathto + 600;
      if (now() - c.t0 > limit || (stop && now() - t0 > budget + 5)) {
        kill(c.pid, SIGKILL);
        eof = true;
        if (!stop) incomplete = true;
      }
      if (!eof) {
        i++;
        continue;
      }
      close(c.fd);
      int st = 0;
      waitpid(c.pid, &st, 0);
      bool good = c.buf.size() >= 4 && *(u32 *)(c.buf.data() + c.buf.size() - 4) == 0xD04E;
      if (!good) {
        errors++;
        errcodes[WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)]++;
      } else {
        const char * p = c.buf.data();
        auto gT = [&](auto & t) { memcpy(&t, p, sizeof t); p += sizeof t; };
        auto gS = [&](std::string & s) { u32 n; gT(n); s.assign(p, n); p += n; };
        Stats s;
        gT(s);
        if (s.diverged && c.item.tries < 3) {  // did not follow its prefix (addresses differ between processes): run it again
          c.item.tries++;
          retried++;
          work.push_back(std::move(c.item));
          ch.erase(ch.begin() + i);
          continue;
        }
        tot.paths += s.paths; tot.queries += s.queries; tot.unsat += s.unsat; tot.sat += s.sat;
        tot.unknown += s.unknown; tot.cached += s.cached; tot.refine += s.refine; tot.tab += s.tab;
        for (int q = 0; q < 4; q++) tot.tier[q] += s.tier[q];
        tot.solver_s += s.solver_s; tot.asym += s.asym; tot.aconc += s.aconc; tot.pins += s.pins;
        tot.unsup += s.unsup; tot.mism += s.mism; tot.diverged += s.diverged; tot.branches += s.branches;
        tot.assert_unsat += s.assert_unsat;
        std::string viol, det;
        gS(viol);
        gS(det);
        u32 n;
        gT(n);
        std::vector<VarInfo> vars(n);
        for (auto & v : vars) { gS(v.name); gT(v.bits); }
        gT(n);
        std::vector<u64> in(n);
        for (auto & v : in) gT(v);
        gT(n);
        for (u32 q = 0; q < n; q++) { std::string x; gS(x); covers.insert(x); }
        gT(n);
        for (u32 q = 0; q < n; q++) { std::string x; u64 v; gS(x); gT(v); native[x] += v; }
        gT(n);
        for (u32 q = 0; q < n; q++) { std::string x; u64 v; gS(x); gT(v); labels[x] += v; }
        gT(n);
        for (u32 q = 0; q < n; q++) {
          Item ni;
          u32 k2;
          gT(k2);
          ni.in.resize(k2);
          memcpy(ni.in.data(), p, 8 * k2);
          p += 8 * k2;
          gT(k2);
          ni.pfx.resize(k2);
          memcpy(ni.pfx.data(), p, sizeof(PfxEnt) * k2);
          p += sizeof(PfxEnt) * k2;
          work.push_back(std::move(ni));
        }
        auto dump = [&]() {
          std::string o;
          for (size_t q = 0; q < vars.size(); q++) {
            char b[200];
            if (vars[q].bits == 64)
              snprintf(b, sizeof b, "%s %d %llu # %lld %.17g\n", vars[q].name.c_str(), vars[q].bits,
                       (unsigned long long)in[q], (long long)in[q], asd(in[q]));
            else snprintf(b, sizeof b, "%s %d %llu\n", vars[q].name.c_str(), vars[q].bits, (unsigned long long)in[q]);
            o += b;
          }
          return o;
        };
        if (!viol.empty()) {
          if (!viols.count(viol)) {
            std::string fn2 = violdir + "/" + harness + "." + std::to_string(viols.size()) + ".input";
            if (FILE * f = fopen(fn2.c_str(), "w")) {
              fprintf(f, "# harness %s\n# violation %s\n# detail %s\n%s", harness.c_str(), viol.c_str(),
                      det.c_str(), dump().c_str());
              fclose(f);
            }
            viols[viol] = fn2;
            if (!keepgoing && !knownset.count(viol)) {
              stop = true;
              budget = now() - t0 + 1;
            }
          }
        } else if (tot.paths >= next_sample && samples.size() < 24) {
          samples.push_back(dump());
          next_sample = tot.paths + 1 + tot.paths / 3;
        }
      }
      ch.erase(ch.begin() + i);
    }
    if (!stop && (now() - t0 > budget || tot.paths >= maxpaths)) {
      stop = true;
      budget = now() - t0 + 1;
      if (!work.empty() || !ch.empty()) incomplete = true;
    }
    if (stop && ch.empty()) break;
  }
  bool viol_stop = false;
  for (auto & v : viols)
    if (!knownset.count(v.first)) viol_stop = true;
  FILE * f = outfile.empty() ? stdout : fopen(outfile.c_str(), "w");
  auto esc = [](const std::string & s) {
    std::string o;
    for (char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c == '\n') o += "\\n";
      else if ((unsigned char)c < 32) o += ' ';
      else o += c;
    }
    return o;
  };
  bool complete = !incomplete && !errors && !tot.diverged && !tot.unknown && work.empty() && !viol_stop;
  fprintf(f, "{\"harness\":\"%s\",\"complete\":%s,\"paths\":%llu,\"branches\":%llu,\"queries\":%llu,\"unsat\":%llu,\"sat\":%llu,"
             "\"unknown\":%llu,\"cached\":%llu,\"refinements\":%llu,\"tabulated\":%llu,\"tier\":[%llu,%llu,%llu,%llu],\"solver_s\":%.3f,"
             "\"asserts_symbolic\":%llu,\"asserts_concrete\":%llu,\"assert_negations_unsat\":%llu,\"pins\":%llu,\"unsupported\":%llu,"
             "\"mismatch\":%llu,\"diverged\":%llu,\"errors\":%llu,\"left\":%zu,\"wall_s\":%.3f,",
          harness.c_str(), complete ? "true" : "false", (unsigned long long)tot.paths,
          (unsigned long long)tot.branches, (unsigned long long)tot.queries, (unsigned long long)tot.unsat,
          (unsigned long long)tot.sat, (unsigned long long)tot.unknown, (unsigned long long)tot.cached,
          (unsigned long long)tot.refine, (unsigned long long)tot.tab, (unsigned long long)tot.tier[0], (unsigned long long)tot.tier[1],
          (unsigned long long)tot.tier[2], (unsigned long long)tot.tier[3], tot.solver_s,
          (unsigned long long)tot.asym, (unsigned long long)tot.aconc, (unsigned long long)tot.assert_unsat, (unsigned long long)tot.pins,
          (unsigned long long)tot.unsup, (unsigned long long)tot.mism, (unsigned long long)tot.diverged,
          (unsigned long long)errors, work.size(), now() - t0);
  auto m = [&](const char * k, auto & mp) {
    fprintf(f, "\"%s\":{", k);
    bool first = true;
    for (auto & e : mp) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(e.first).c_str(), (unsigned long long)e.second);
      first = false;
    }
    fprintf(f, "},");
  };
  m("native", native);
  m("labels", labels);
  fprintf(f, "\"errcodes\":{");
  bool first = true;
  for (auto & e : errcodes) {
    fprintf(f, "%s\"%d\":%llu", first ? "" : ",", e.first, (unsigned long long)e.second);
    first = false;
  }
  fprintf(f, "},\"covers\":[");
  first = true;
  for (auto & c : covers) {
    fprintf(f, "%s\"%s\"", first ? "" : ",", esc(c).c_str());
    first = false;
  }
  fprintf(f, "],\"samples\":[");
  first = true;
  for (auto & c : samples) {
    fprintf(f, "%s\"%s\"", first ? "" : ",", esc(c).c_str());
    first = false;
  }
  fprintf(f, "],\"violations\":{");
  first = true;
  for (auto & v : viols) {
    fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", esc(v.first).c_str(), esc(v.second).c_str());
    first = false;
  }
  fprintf(f, "}}\n");
  if (f != stdout) fclose(f);
  return 0;
}
