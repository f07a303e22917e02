// driver of the analysis: entries, partitions, report
static string esc(const string &s) {
    string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\')
            r += '\\', r += c;
        else if (c < 32)
            r += ' ';
        else
            r += c;
    }
    return r;
}

struct Outcome {
    std::map<string, Ob> obs;  // key kind|label
    std::vector<string> order;
    std::map<string, int> seen;
    std::vector<Event> events;
    std::vector<string> undecided;
    int partitions = 0;
    u64 steps = 0;
    std::vector<string> guards;
};

static int maxParts = getenv("WG_MAXPARTS") ? atoi(getenv("WG_MAXPARTS")) : 768;
static u64 deadline = 0;  // seconds since the epoch
static double NEAR_TOL = 1e-12;
static const int SERIES_ORDER = 5;  // differences of this order or above are beyond the kept coefficients

static double nearBound(const std::vector<Decision> &d) {
    // largest s for which every "inside" decision holds
    double b = 1e300;
    for (auto &x : d)
        if (x.near && x.choice == 1) b = std::min(b, std::pow(std::fabs(x.cst), 1.0 / x.valuation));
    return b;
}

static string specialName(const string &type, int k) {
    static const char *rep[] = {" given by -q / (-t,-a)", " given by -q / (t-2pi,a)", " given by -q / (2pi-t,-a)"};
    if (type == "rotation") return k ? rep[k - 1] : " = identity";
    if (type == "transform") return k == 0 ? " without rotation" : k == 1 ? " without translation" : rep[k - 2];
    if (type == "rotation vector") return k == 0 ? " = 0" : k == 1 ? " longer than pi" : " longer than 2 pi";
    return " = 0";
}

static Outcome analyse(Engine &E, Module *Mod, const Function &F, u64 seed0, const Variant &var) {
    StringRef nm = F.getName();
    {
        Outcome oc;
        bool Z = nm.starts_with("Z_") || var.kind == Variant::Near;
        E.var = var;
        int limit = var.kind == Variant::None ? maxParts : std::min(maxParts, var.kind == Variant::Near ? 24 : 64);
        int maxTries = var.kind == Variant::None ? 3000 : 300;
        std::vector<std::vector<int>> work{{}};
        u64 seed = seed0 * 1000003 + std::hash<string>()(nm.str()) % 100000;
        int tries = 0;
        struct Part {
            std::vector<Decision> dec;
            std::vector<NearRec> nears;
        };
        std::vector<Part> parts;
        while (!work.empty()) {
            auto script = work.back();
            work.pop_back();
            if (deadline && (u64)time(nullptr) > deadline) {
                oc.undecided.push_back("time budget of the check exhausted");
                break;
            }
            if (oc.partitions >= limit) {
                oc.undecided.push_back("more than " + std::to_string(limit) + " partitions");
                break;
            }
        retry:
            E.clearMem();
            V::arena.clear();
            E.gaddr.clear();
            E.faddr.clear();
            E.orgs.clear();
            E.cstack.clear();
            E.cur = nullptr;
            E.events.clear();
            E.obs.clear();
            E.nears.clear();
            E.gens.clear();
            E.leafs.clear();
            E.tie = false;
            E.steps = 0;
            E.noalloc = 0;
            E.pure = E.atomicOp = false;
            E.inGuard = 0;
            E.prots.clear();
            E.allocCount = 0;
            E.oracle.taken.clear();
            E.oracle.script = script;
            std::unique_ptr<Domain> dom;
            E.dual = nullptr;
            E.ser = nullptr;
            if (Z) {
                auto p = std::make_unique<SeriesDomain>(seed, &E.oracle);
                E.ser = p.get();
                dom = std::move(p);
            } else {
                auto p = std::make_unique<DualDomain>(seed, &E.oracle, 24);
                E.dual = p.get();
                dom = std::move(p);
            }
            E.D = dom.get();
            string und;
            string ab;
            try {
                if (auto *gc = Mod->getNamedGlobal("llvm.global_ctors"))
                    if (gc->hasInitializer())
                        if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                            for (auto &op : ca->operands()) {
                                auto *cs = cast<ConstantStruct>(op);
                                if (auto *cf = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                                    E.call(cf, {}, nullptr);
                            }
                E.call(&F, {}, nullptr);
            } catch (RetrySeed &) {
                if (++tries > maxTries) {
                    oc.undecided.push_back("no homomorphism found with the needed roots");
                    break;
                }
                seed = seed * 6364136223846793005ull + 1442695040888963407ull;
                if (Z) {
                    // all partitions of a neighbourhood share the homomorphism
                    oc = Outcome();
                    parts.clear();
                    work.clear();
                    work.push_back({});
                    continue;
                }
                goto retry;
            } catch (Undecided &u) {
                und = u.why + " at " + E.here() + " [" + E.stackStr() + "]";
            } catch (Abort &a) {
                ab = a.why;
            }
            ++oc.partitions;
            oc.steps += E.steps;
            for (size_t k = script.size(); k < E.oracle.taken.size(); ++k) {
                std::vector<int> s2;
                for (size_t i = 0; i < k; ++i) s2.push_back(E.oracle.taken[i].choice);
                s2.push_back(1);
                work.push_back(s2);
            }
            string path;
            for (auto &d : E.oracle.taken) {
                string g = d.where + (d.near ? " (threshold " + std::to_string(d.cst) + ", order " + std::to_string(d.valuation) + ")" : "");
                if (std::find(oc.guards.begin(), oc.guards.end(), g) == oc.guards.end()) oc.guards.push_back(g);
                path += (path.empty() ? "" : ", ") + string(d.choice ? "else-side" : "then-side") + " of guard at " + d.where;
            }
            std::map<string, int> cnt;
            for (auto &o : E.obs) {
                int c = cnt[o.kind + "|" + o.label]++;
                string k = o.kind + "|" + o.label + (c ? "#" + std::to_string(c) : "");
                auto it = oc.obs.find(k);
                if (it == oc.obs.end()) {
                    oc.order.push_back(k);
                    oc.obs[k] = o;
                    it = oc.obs.find(k);
                    if (o.status == "fail" && !path.empty()) it->second.detail += " (on the path: " + path + ")";
                } else if (o.status == "fail" && it->second.status != "fail") {
                    it->second = o;
                    if (!path.empty()) it->second.detail += " (on the path: " + path + ")";
                } else if (o.status == "undecided" && it->second.status == "ok")
                    it->second = o;
            }
            for (auto &e : E.events) oc.events.push_back(e);
            if (!und.empty()) oc.undecided.push_back(und);
            if (!ab.empty() && E.events.empty()) oc.events.push_back({"abort", ab, E.here(), E.stackStr()});
            parts.push_back({E.oracle.taken, E.nears});
        }
        // neighbourhood obligations
        if (Z && !parts.empty()) {
            SeriesDomain sd(1, nullptr);
            const Part &base = parts[0];
            for (size_t li = 0; li < base.nears.size(); ++li) {
                const NearRec &b = base.nears[li];
                string bad, where;
                for (size_t pi = 0; pi < parts.size(); ++pi) {
                    if (li >= parts[pi].nears.size() || parts[pi].nears[li].label != b.label) continue;
                    const NearRec &r = parts[pi].nears[li];
                    // reference partition: same non-near decisions, all near guards outside
                    const NearRec *ref = nullptr;
                    for (auto &q : parts) {
                        bool inside = false;
                        std::vector<int> a, c;
                        for (auto &d : q.dec)
                            if (d.near) inside = inside || d.choice;
                            else a.push_back(d.choice);
                        for (auto &d : parts[pi].dec)
                            if (!d.near) c.push_back(d.choice);
                        if (!inside && a == c && li < q.nears.size() && q.nears[li].label == b.label) {
                            ref = &q.nears[li];
                            break;
                        }
                    }
                    if (!ref && var.kind != Variant::None) continue;  // nothing to compare with
                    if (!ref) ref = &b;
                    double bs = nearBound(parts[pi].dec);
                    for (size_t i = 0; i < r.vals.size(); ++i) {
                        const auto &x = r.vals[i];
                        const auto &y = ref->vals[i];
                        uint8_t m = FL_NAN | FL_UNDEF | FL_INF;
                        string why;
                        if (var.kind != Variant::None && !r.diff && (y.fl & m))
                            ;
                        else if (x.fl & m)
                            why = x.fl & FL_NAN ? "is NaN" : x.fl & FL_INF ? "is infinite" : "is uninitialised";
                        else if (!r.diff && !x.zero && x.val < 0 && (var.kind == Variant::None || y.zero || y.val >= 0))
                            why = "diverges";
                        else if (r.diff) {
                            if (!x.zero && x.val < SERIES_ORDER && (bs > 1e200 || !(std::pow(bs, x.val) <= NEAR_TOL))) {
                                char buf[200];
                                if (bs > 1e200)
                                    snprintf(buf, sizeof buf, "differs from what the law requires by O(s^%d)", x.val);
                                else
                                    snprintf(buf, sizeof buf,
                                             "differs from what the law requires by O(s^%d) while the guard admits s up to %.3g",
                                             x.val, bs);
                                why = buf;
                            }
                        } else if (!(y.fl & m) && bs < 1e200) {
                            auto d = sd.addE(x, y, true);
                            if (!d.zero && (var.kind == Variant::None || d.val < SERIES_ORDER)) {
                                double e = std::pow(bs, d.val);
                                if (!(e <= NEAR_TOL)) {
                                    char buf[200];
                                    snprintf(buf, sizeof buf,
                                             "differs from the exact formula by O(s^%d) while the guard admits s up to %.3g",
                                             d.val, bs);
                                    why = buf;
                                }
                            }
                        }
                        if (!why.empty() && bad.empty()) {
                            bad = "component " + std::to_string(i) + " " + why;
                            for (auto &d : parts[pi].dec)
                                bad += string(", ") + (d.choice ? "inside" : "outside") + " guard at " + d.where;
                            where = r.org[i];
                        }
                    }
                }
                string kind = var.kind == Variant::None ? "near" : b.diff ? "eq" : b.label.rfind("J ", 0) == 0 ? "jac" : "near";
                string k = kind + "|near " + b.label;
                oc.order.push_back(k);
                oc.obs[k] = Ob{kind, b.label, bad.empty() ? "ok" : "fail", bad, where};
            }
        }
        return oc;
    }
}

int main(int argc, char **argv) {
    u64 seed0 = 1;
    string out, file, only;
    bool variants = false;
    int shard = 0, shards = 1, index = 0;
    for (int i = 1; i < argc; ++i) {
        string s = argv[i];
        if (s == "--seed") seed0 = std::stoull(argv[++i]);
        else if (s == "--json") out = argv[++i];
        else if (s == "--variants") variants = true;
        else if (s == "--near-tol") NEAR_TOL = atof(argv[++i]);
        else if (s == "--shard") shard = atoi(argv[++i]);
        else if (s == "--shards") shards = atoi(argv[++i]);
        else if (s == "--deadline") deadline = std::stoull(argv[++i]);
        else if (s == "--only") only = argv[++i];
        else file = s;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto Mod = parseIRFile(file, err, ctx);
    if (!Mod) {
        err.print("irflow", errs());
        return 2;
    }
    // scalars whose address is never taken become values: fewer steps, same meaning (an object some
    // pointer refers to is left in memory, so its lifetime is still tracked)
    for (Function &F : *Mod) {
        if (F.isDeclaration()) continue;
        DominatorTree DT(F);
        while (true) {
            std::vector<AllocaInst *> as;
            for (auto &I : F.getEntryBlock())
                if (auto *A = dyn_cast<AllocaInst>(&I))
                    if (isAllocaPromotable(A)) as.push_back(A);
            if (as.empty()) break;
            PromoteMemToReg(as, DT);
        }
    }
    Engine E(*Mod);
    std::ostringstream js;
    js << "{\"module\":\"" << esc(file) << "\",\"entries\":[";
    bool firstE = true;
    std::set<string> allFns;
    u64 totalSteps = 0;
    struct Ent {
        const Function *F;
        Outcome oc;
        std::vector<Engine::Gen> gens;
        std::set<std::tuple<int, int, double>> pins;
    };
    std::vector<Ent> todo;  // every entry in general position first, then their special operands
    for (const Function &F : *Mod) {
        if (F.isDeclaration()) continue;
        StringRef nm = F.getName();
        if (!(nm.starts_with("G_") || nm.starts_with("X_") || nm.starts_with("Z_"))) continue;
        if (!only.empty() && nm != only) continue;
        if (index++ % shards != shard) continue;
        Ent e;
        e.F = &F;
        E.pinReq.clear();
        e.oc = analyse(E, Mod.get(), F, seed0, Variant());
        e.gens = E.gens;
        e.pins = E.pinReq;
        todo.push_back(std::move(e));
    }
    for (Ent &ent : todo) {
        const Function &F = *ent.F;
        StringRef nm = F.getName();
        Outcome &oc = ent.oc;
        int nvar = 0, nvarU = 0;
        if (variants && !nm.starts_with("Z_")) {
            std::vector<std::pair<Variant, string>> vs;
            const auto &gens = ent.gens;
            for (size_t g = 0; g < gens.size(); ++g) {
                string n = gens[g].type + " " + std::to_string(g + 1);
                for (int k = 0; k < gens[g].subs; ++k) {
                    Variant v;
                    v.kind = Variant::Special;
                    v.gen = g;
                    v.sub = k;
                    vs.push_back({v, n + specialName(gens[g].type, k)});
                }
                for (int k = 0; k < gens[g].nears; ++k) {
                    Variant v;
                    v.kind = Variant::Near;
                    v.gen = g;
                    v.sub = k;
                    vs.push_back({v, n + (gens[g].type == "transform" ? (k == 0 ? " rotating by s -> 0" : k == 1 ? " translating by s -> 0" : " rotating by pi - s")
                                          : k == 1 ? " rotating by pi - s" : " of size s -> 0")});
                }
            }
            for (auto &pr : ent.pins) {
                Variant v;
                v.kind = Variant::Pin;
                std::tie(v.gen, v.comp, v.c) = pr;
                vs.push_back({v, "component " + std::to_string(v.comp) + " of operand " + std::to_string(v.gen + 1) + " = " + std::to_string(v.c)});
            }
            for (auto &v : vs) {
                Outcome q = analyse(E, Mod.get(), F, seed0, v.first);
                ++nvar;
                oc.steps += q.steps;
                oc.partitions += q.partitions;
                if (!q.undecided.empty()) {
                    ++nvarU;
                    if (getenv("IRV")) fprintf(stderr, "   variant %s: %s\n", v.second.c_str(), q.undecided[0].c_str());
                }
                for (auto &k : q.order) {
                    Ob o = q.obs[k];
                    if (o.status == "undecided") continue;
                    o.label += " [" + v.second + "]";
                    string k2 = k + " [" + v.second + "]";
                    oc.order.push_back(k2);
                    oc.obs[k2] = o;
                }
                for (auto e : q.events) {
                    e.what += " [" + v.second + "]";
                    oc.events.push_back(e);
                }
                for (auto &g : q.guards)
                    if (std::find(oc.guards.begin(), oc.guards.end(), g) == oc.guards.end()) oc.guards.push_back(g);
            }
        }
        totalSteps += oc.steps;
        if (getenv("IRV")) fprintf(stderr, "%s parts %d steps %lu\n", nm.str().c_str(), oc.partitions, (unsigned long)oc.steps);
        js << (firstE ? "" : ",") << "\n{\"entry\":\"" << esc(nm.str()) << "\",\"partitions\":" << oc.partitions
           << ",\"variants\":" << nvar << ",\"variants_undecided\":" << nvarU << ",\"steps\":" << oc.steps << ",\"obligations\":[";
        firstE = false;
        bool f1 = true;
        for (auto &k : oc.order) {
            auto &o = oc.obs[k];
            js << (f1 ? "" : ",") << "\n {\"kind\":\"" << o.kind << "\",\"label\":\"" << esc(o.label) << "\",\"status\":\""
               << o.status << "\",\"detail\":\"" << esc(o.detail) << "\",\"where\":\"" << esc(o.where) << "\"}";
            f1 = false;
        }
        js << "],\"events\":[";
        f1 = true;
        std::set<string> evs;
        for (auto &e : oc.events) {
            if (!evs.insert(e.kind + e.what + e.where).second) continue;
            js << (f1 ? "" : ",") << "\n {\"kind\":\"" << e.kind << "\",\"what\":\"" << esc(e.what) << "\",\"where\":\""
               << esc(e.where) << "\",\"stack\":\"" << esc(e.stack) << "\"}";
            f1 = false;
        }
        js << "],\"undecided\":[";
        f1 = true;
        std::set<string> us(oc.undecided.begin(), oc.undecided.end());
        for (auto &u : us) {
            js << (f1 ? "" : ",") << "\"" << esc(u) << "\"";
            f1 = false;
        }
        js << "],\"guards\":[";
        f1 = true;
        for (auto &g : oc.guards) {
            js << (f1 ? "" : ",") << "\"" << esc(g) << "\"";
            f1 = false;
        }
        js << "]}";
    }
    js << "\n],\"functions\":[";
    bool f1 = true;
    std::set<string> fnames;
    std::set<std::pair<string, unsigned>> lines;
    for (auto *f : E.fns) fnames.insert(f->getName().str());
    for (auto *l : E.locs)
        if (l->getFilename().contains("/repo/include")) lines.insert({l->getFilename().str(), l->getLine()});
    for (auto &f : fnames) {
        js << (f1 ? "" : ",") << "\"" << esc(f) << "\"";
        f1 = false;
    }
    js << "],\"lines\":[";
    f1 = true;
    for (auto &l : lines) {
        js << (f1 ? "" : ",") << "\"" << esc(l.first) << ":" << l.second << "\"";
        f1 = false;
    }
    js << "],\"steps\":" << totalSteps << "}\n";
    if (out.empty())
        fputs(js.str().c_str(), stdout);
    else {
        FILE *f = fopen(out.c_str(), "w");
        fputs(js.str().c_str(), f);
        fclose(f);
    }
    return 0;
}
