static std::string js(const std::string& s) {
  std::string o = "\"";
  for (char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if ((unsigned char) ch < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}
int main(int argc, char** argv) {
  Interp in;
  std::string bc, entry, out;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx();
    else if (a == "--out") out = nx();
    else if (a == "--max-steps") in.maxSteps = std::stol(nx());
    else if (a == "--max-paths") in.maxPaths = std::stol(nx());
    else if (a == "--time") in.timeLimit = std::stod(nx());
    else if (a == "--timeout-ms") { in.S.timeoutMs = std::stoi(nx()); z3::params p(in.S.z); p.set("timeout", in.S.timeoutMs); in.S.s.set(p); }
    else if (a == "--ext-timeout") in.S.extTimeoutS = std::stoi(nx());
    else if (a == "--shard") { std::string s = nx(); in.shard = std::stoi(s); in.nshard = std::stoi(s.substr(s.find('/') + 1)); }
    else if (a == "--eps") in.epsFP = true;
    else if (a == "--param") { std::string s = nx(); auto e = s.find('='); in.params[s.substr(0, e)] = std::stoll(s.substr(e + 1)); }
    else if (a == "--pin") {
      std::string s = nx(); auto e = s.find('=');
      std::stringstream ss(s.substr(e + 1));
      std::string t;
      while (std::getline(ss, t, ',')) in.pins[s.substr(0, e)].push_back(std::stoll(t));
    } else if (a == "--dump-smt") { in.S.dumpDir = nx(); in.S.dumpMax = std::stol(nx()); }
    else if (a == "--seed") in.rng.seed(std::stoul(nx()));
    else bc = a;
  }
  SMDiagnostic err;
  in.M = getLazyIRFileModule(bc, err, in.lc);
  if (!in.M) { std::cerr << "cannot load " << bc << "\n"; return 2; }
  in.DL = &in.M->getDataLayout();
  in.setupExts();
  Function* E = in.M->getFunction(entry);
  if (!E) { std::cerr << "no entry " << entry << "\n"; return 2; }
  in.t0 = std::chrono::steady_clock::now();
  in.S.deadline = in.t0 + std::chrono::milliseconds((long) (in.timeLimit * 1000));
  in.S.whereFn = [&] { return in.where(); };
  // persistent address space: object region 0..15 unused, then globals
  in.regionObj.assign(16, 0);
  for (auto& F : *in.M) in.addrOfFn(&F);
  for (auto& G : in.M->globals()) in.addrOfGlobal(&G);
  size_t ng = in.objs.size(), nr = in.regionObj.size();
  std::vector<Obj> snap;
  for (auto& o : in.objs) { snap.push_back(o); }
  for (auto& o : in.objs) o.dirty = false;
  std::vector<Function*> ctors;
  if (auto* gc = in.M->getGlobalVariable("llvm.global_ctors"))
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& op : ca->operands())
        if (auto* f = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1))) ctors.push_back(f);
  in.work.push_back({});
  bool timedOut = false, incomplete = false;
  while (!in.work.empty()) {
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - in.t0).count();
    if (el > in.timeLimit) { timedOut = true; break; }
    if (in.paths >= in.maxPaths) { incomplete = true; break; }
    in.prefix = std::move(in.work.back());
    in.work.pop_back();
    in.pos = 0;
    in.abortOk = false;
    in.nondet.clear();
    in.openWit.clear();
    in.nameCount.clear();
    in.aggs.clear();
    in.caught.clear();
    in.excType.clear();
    in.freeStack.clear();
    in.c.resetOverlay();
    in.S.reset();
    while (in.objs.size() > ng) in.objs.pop_back();
    in.regionObj.resize(nr);
    for (size_t i = 0; i < ng; ++i)
      if (in.objs[i].dirty) { in.objs[i] = snap[i]; in.objs[i].dirty = false; }
    in.fibers.clear();
    in.fibers.emplace_back();
    in.cur = 0;
    in.steps = 0;
    in.pathNote.clear();
    bool counted = true;
    try {
      in.abortOk = false;
      for (auto* f : ctors) {
        in.pushCall(f, {}, -1, false);
        in.run();
        in.fibers[0].done = false;
      }
      in.pushCall(E, {}, -1, false);
      in.run();
      in.okPaths++;
      in.closeWitnesses();
    } catch (PathEnd& e) {
      switch (e.kind) {
        case PathEnd::OK: in.okPaths++; try { in.closeWitnesses(); } catch (Unsupported&) {} break;
        case PathEnd::ASSUME: in.assumeEnds++; break;
        case PathEnd::ABORT: in.abortEnds++; try { in.closeWitnesses(); } catch (Unsupported&) {} break;
        case PathEnd::SHARD: counted = false; break;
        case PathEnd::ERROR: if (e.msg == "step limit") in.inconcl["step limit exceeded" + in.where()]++; break;
      }
    } catch (Unsupported& u) {
      in.inconcl[u.what]++;
    } catch (z3::exception& e) {
      in.inconcl[std::string("z3: ") + e.msg()]++;
    }
    if (counted) { in.paths++; }
    in.totalSteps += in.steps;
  }
  double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - in.t0).count();
  if (timedOut) in.inconcl["time limit: " + std::to_string(in.work.size()) + " prefixes left"]++;
  if (incomplete) in.inconcl["path limit"]++;
  std::ostringstream o;
  o << "{\"entry\":" << js(entry) << ",\"paths\":" << in.paths << ",\"ok_paths\":" << in.okPaths << ",\"assume_ends\":" << in.assumeEnds << ",\"abort_ends\":" << in.abortEnds
    << ",\"steps\":" << in.totalSteps << ",\"checks\":" << in.checks << ",\"checks_by_simplification\":" << in.checksTrivial << ",\"obligations\":" << in.obligations << ",\"obligations_by_simplification\":" << in.obligTrivial
    << ",\"forks\":" << in.forks << ",\"queries\":" << in.S.queries << ",\"sat\":" << in.S.sat << ",\"unsat\":" << in.S.unsat << ",\"unknown\":" << in.S.unknown << ",\"external_queries\":" << in.S.external << ",\"model_hits\":" << in.S.modelHits
    << ",\"solver_s\":" << in.S.time << ",\"max_query_s\":" << in.S.maxTime << ",\"wall_s\":" << el << ",\"sharded\":" << (in.sharded ? "true" : "false");
  auto mp = [&](const char* n, auto& m) {
    o << ",\"" << n << "\":{";
    bool first = true;
    for (auto& p : m) { o << (first ? "" : ",") << js(p.first) << ":" << p.second; first = false; }
    o << "}";
  };
  mp("covers", in.covers);
  mp("check_points", in.checkCount);
  mp("inconclusive", in.inconcl);
  mp("stubs", in.stubs);
  o << ",\"samples\":[";
  for (size_t i = 0; i < in.samples.size(); ++i) o << (i ? "," : "") << js(in.samples[i]);
  o << "],\"witnesses\":[";
  for (size_t i = 0; i < in.witnesses.size(); ++i) {
    auto& v = in.witnesses[i];
    o << (i ? "," : "") << "{\"cover\":" << js(v.cover) << ",\"full\":" << (v.full ? "true" : "false") << ",\"values\":[";
    for (size_t k = 0; k < v.vals.size(); ++k) o << (k ? "," : "") << "[" << js(v.vals[k].first) << "," << js(v.vals[k].second) << "]";
    o << "]}";
  }
  o << "],\"functions\":[";
  bool first = true;
  for (auto& f : in.fnsRun) if (f.find("dlaf") != std::string::npos && f.find("std::") != 0) { o << (first ? "" : ",") << js(f.substr(0, 220)); first = false; }
  o << "],\"violations\":[";
  for (size_t i = 0; i < in.viols.size(); ++i) {
    auto& v = in.viols[i];
    o << (i ? "," : "") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"values\":[";
    for (size_t k = 0; k < v.vals.size(); ++k) o << (k ? "," : "") << "[" << js(v.vals[k].first) << "," << js(v.vals[k].second) << "]";
    o << "]}";
  }
  o << "]}\n";
  if (out.empty()) std::cout << o.str();
  else std::ofstream(out) << o.str();
  return 0;
}
