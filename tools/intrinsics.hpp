    // Meaning of the wg_* intrinsics (included into struct Engine).
    void ob(const string &kind, const string &label, const string &status, const string &detail, const string &where) {
        obs.push_back({kind, label, status, detail, where});
    }
    string orgOf(fid f) {
        if (f < orgs.size() && orgs[f]) return locStr(orgs[f]);
        return "?";
    }
    // rotation of generic position: quaternion (v,w) unit, w>0, angle theta in (0,pi)
    struct Rot {
        u64 w, v[3], n;   // quaternion, |v|
        u64 theta, a[3];  // angle, axis
        u64 R[9];         // column major
        u64 c, s;         // cos, sin theta
    };
    void rotMat(const u64 *v, u64 w, u64 *R) {
        u64 x = v[0], y = v[1], z = v[2];
        auto m2 = [](u64 a, u64 b) { return f_mul(2, f_mul(a, b)); };
        R[0] = f_sub(1, f_add(m2(y, y), m2(z, z)));
        R[4] = f_sub(1, f_add(m2(x, x), m2(z, z)));
        R[8] = f_sub(1, f_add(m2(x, x), m2(y, y)));
        R[3] = f_sub(m2(x, y), m2(w, z));
        R[1] = f_add(m2(x, y), m2(w, z));
        R[6] = f_add(m2(x, z), m2(w, y));
        R[2] = f_sub(m2(x, z), m2(w, y));
        R[7] = f_sub(m2(y, z), m2(w, x));
        R[5] = f_add(m2(y, z), m2(w, x));
    }
    void unit3(u64 *a) {
        // stereographic: rational point of the sphere
        u64 p = dualRng().field(), q = dualRng().field();
        u64 r2 = f_add(f_mul(p, p), f_mul(q, q));
        u64 d = f_inv(f_add(r2, 1));
        a[0] = f_mul(f_add(p, p), d);
        a[1] = f_mul(f_add(q, q), d);
        a[2] = f_mul(f_sub(r2, 1), d);
    }
    Rng &dualRng() { return D->rng; }
    DualDomain &atoms() { return dual ? *dual : ser->atoms; }
    Rot genRot() {
        Rot r;
        DualDomain &A = atoms();
        unit3(r.a);
        u64 t = D->rng.field();
        u64 t2 = f_mul(t, t), d = f_inv(f_add(1, t2));
        r.w = f_mul(f_sub(1, t2), d);
        r.n = f_mul(f_add(t, t), d);
        for (int i = 0; i < 3; ++i) r.v[i] = f_mul(r.a[i], r.n);
        rotMat(r.v, r.w, r.R);
        r.theta = D->rng.field();
        r.c = f_sub(f_mul(r.w, r.w), f_mul(r.n, r.n));
        r.s = f_mul(2, f_mul(r.w, r.n));
        u64 h = f_div(r.theta, 2), q = f_div(r.theta, 4);
        (void)q;
        A.angles.push_back({r.theta, r.c, r.s, true});
        A.angles.push_back({h, r.w, r.n, true});
        A.noteRoot(f_mul(r.theta, r.theta), r.theta);
        A.noteRoot(f_mul(r.n, r.n), r.n);
        A.noteRoot(f_mul(r.w, r.w), r.w);
        A.noteRoot(f_mul(r.s, r.s), r.s);
        for (u64 z : {r.theta, r.n, r.w, r.s}) {
            A.signs[z] = 1;
            A.signs[f_neg(z)] = -1;
        }
        A.fact(r.theta, 0, M_PI);
        A.fact(r.w, 0, 1);
        A.fact(r.n, 0, 1);
        A.fact(r.c, -1, 1);
        A.fact(r.s, 0, 1);
        A.fact(f_mul(r.theta, r.theta), 0, M_PI * M_PI);
        A.fact(f_add(f_add(r.R[0], r.R[4]), r.R[8]), -1, 3);
        for (int i = 0; i < 9; ++i) A.fact(r.R[i], -1, 1);
        for (int i = 0; i < 3; ++i) A.fact(r.v[i], -1, 1), A.fact(r.a[i], -1, 1);
        return r;
    }
    fid mkd(u64 v, const u64 *dv, int n, int dbase) {
        if (ser) return ser->put(ser->fromField(v));
        if (!dv || dbase < 0) return dual->mk(v, -1);
        int32_t d = dual->newd();
        for (int i = 0; i < n; ++i)
            if (dbase + i < (int)dual->nd) dual->darr[d + dbase + i] = dv[i];
        return dual->mk(v, d);
    }
    fid lastPhi[4];
    void setPhi(fid th, const fid *ax) {
        for (int i = 0; i < 3; ++i) lastPhi[i] = D->mul(th, ax[i]);
        lastPhi[3] = th;
    }
    fid fieldv(u64 v) { return mkd(v, nullptr, 0, -1); }
    // write R (9), q (4), aa (4), each optional; left perturbation delta with derivative indices dbase..dbase+2
    void writeRot(const Rot &r, u64 pR, u64 pq, u64 paa, int dbase, u64 ldR = 3) {
        fid ax[3] = {fieldv(r.a[0]), fieldv(r.a[1]), fieldv(r.a[2])};
        setPhi(fieldv(r.theta), ax);
        if (pR)
            for (int j = 0; j < 3; ++j)
                for (int i = 0; i < 3; ++i) {
                    // d(delta x col_j)_i
                    u64 dv[3] = {0, 0, 0};
                    int i1 = (i + 1) % 3, i2 = (i + 2) % 3;
                    // (delta x c)_i = delta_{i1} c_{i2} - delta_{i2} c_{i1}
                    dv[i1] = r.R[3 * j + i2];
                    dv[i2] = f_neg(r.R[3 * j + i1]);
                    stf(pR + 8 * (ldR * j + i), mkd(r.R[3 * j + i], dv, 3, dbase));
                }
        if (pq) {
            // dq = 1/2 (delta,0) * q :  vec = 1/2 (w delta + delta x v), w = -1/2 delta.v
            u64 half = f_div(1, 2);
            for (int i = 0; i < 3; ++i) {
                u64 dv[3] = {0, 0, 0};
                int i1 = (i + 1) % 3, i2 = (i + 2) % 3;
                dv[i] = f_mul(half, r.w);
                dv[i1] = f_mul(half, r.v[i2]);
                dv[i2] = f_neg(f_mul(half, r.v[i1]));
                stf(pq + 8 * i, mkd(r.v[i], dv, 3, dbase));
            }
            u64 dw[3];
            for (int i = 0; i < 3; ++i) dw[i] = f_neg(f_mul(half, r.v[i]));
            stf(pq + 24, mkd(r.w, dw, 3, dbase));
        }
        if (paa) {
            // omega = theta a ; d omega = Jl^{-1} delta = (I - 1/2[w] + k [w]^2) delta,
            // k = 1/theta^2 - (1+c)/(2 theta s)
            u64 th = r.theta;
            u64 k = f_sub(f_inv(f_mul(th, th)), f_div(f_add(1, r.c), f_mul(2, f_mul(th, r.s))));
            u64 om[3];
            for (int i = 0; i < 3; ++i) om[i] = f_mul(th, r.a[i]);
            u64 J[3][3];
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) {
                    // [w]^2 = w w^T - |w|^2 I
                    u64 w2 = f_mul(om[i], om[j]);
                    if (i == j) w2 = f_sub(w2, f_mul(th, th));
                    u64 x = 0;
                    if (i != j) {
                        int l = 3 - i - j;
                        bool pos = (j == (i + 2) % 3);  // [w]_{i,i+2} = +w_{i+1}
                        x = pos ? om[l] : f_neg(om[l]);
                    }
                    J[i][j] = f_add(f_mul(k, w2), f_neg(f_div(x, 2)));
                    if (i == j) J[i][j] = f_add(J[i][j], 1);
                }
            stf(paa, mkd(th, r.a, 3, dbase));  // d theta = a . delta
            for (int i = 0; i < 3; ++i) {
                u64 da[3];
                for (int j = 0; j < 3; ++j) da[j] = f_div(f_sub(J[i][j], f_mul(r.a[i], r.a[j])), th);
                stf(paa + 8 + 8 * i, mkd(r.a[i], da, 3, dbase));
            }
        }
    }
    // operand bookkeeping for the variants: returns 0 generic, 1 special (sub), 2 near (sub)
    int nextGen(const char *type, int subs, int nearSubs) {
        gens.push_back({type, subs, nearSubs});
        if (var.gen != (int)gens.size() - 1) return 0;
        return var.kind == Variant::Special ? 1 : var.kind == Variant::Near ? 2 : var.kind == Variant::Pin ? 3 : 0;
    }
    Rot identityRot() {
        Rot r;
        memset(&r, 0, sizeof r);
        r.w = 1;
        r.R[0] = r.R[4] = r.R[8] = 1;
        return r;
    }
    void writeRot0(u64 pR, u64 pq, u64 paa, int dbase, u64 ldR = 3) {
        writeRot(identityRot(), pR, pq, 0, dbase, ldR);
        if (paa) {  // the axis-angle pair has no derivative there
            stf(paa, D->withFlag(D->constant(0), dual ? FL_DUNK : 0));
            for (int i = 0; i < 3; ++i) stf(paa + 8 + 8 * i, D->withFlag(D->constant(i == 0), dual ? FL_DUNK : 0));
        }
    }
    // the same rotation by other coefficients: -q; and (angle, axis) as sub 1: (-t, -a), 2: (t - 2 pi, a), 3: (2 pi - t, -a)
    void otherRep(u64 pq, u64 paa, int sub) {
        if (pq)
            for (int i = 0; i < 4; ++i) stf(pq + 8 * i, D->neg(ldf(pq + 8 * i)));
        if (!paa) return;
        fid th = ldf(paa), tp = D->constant(2 * M_PI);
        DualDomain &A = atoms();
        fid nt = sub == 1 ? D->neg(th) : sub == 2 ? D->sub(th, tp) : D->sub(tp, th);
        u64 v = dual->el[nt].v;
        A.signs[v] = sub == 3 ? 1 : -1;
        A.signs[f_neg(v)] = sub == 3 ? -1 : 1;
        A.noteRoot(f_mul(v, v), sub == 3 ? v : f_neg(v));
        stf(paa, nt);
        if (sub != 2)
            for (int i = 1; i < 4; ++i) stf(paa + 8 * i, D->neg(ldf(paa + 8 * i)));
    }
    fid timesS(u64 v) {
        SeriesDomain::El e = ser->fromField(v);
        e.val = 1;
        return ser->put(e);
    }
    // generic vector with rational norm; optional registration as rotation vector
    // rotation vectors longer than pi describe a rotation already described by a shorter one
    void genVec3(u64 p, int dbase, bool wide) {
        int g = nextGen("rotation vector", wide ? 3 : 1, 2);
        if (g == 1 && var.sub) {
            Rot r = genRot();
            DualDomain &A = atoms();
            u64 tp = f_add(A.pi, A.pi);
            u64 th = var.sub == 1 ? f_sub(tp, r.theta) : f_add(tp, r.theta);
            A.noteRoot(f_mul(th, th), th);
            A.signs[th] = 1;
            A.signs[f_neg(th)] = -1;
            double lo = var.sub == 1 ? M_PI : 2 * M_PI, hi = lo + M_PI;
            A.fact(th, lo, hi);
            A.fact(f_mul(th, th), lo * lo, hi * hi);
            for (int i = 0; i < 3; ++i) {
                u64 dv[3] = {0, 0, 0};
                dv[i] = 1;
                stf(p + 8 * i, mkd(f_mul(th, r.a[i]), dv, 3, dbase));
            }
            return;
        }
        if (g == 2) return seriesRot(0, 0, 0, p, var.sub == 1);
        if (g == 1) {
            for (int i = 0; i < 3; ++i) {
                u64 one = 1;
                stf(p + 8 * i, mkd(0, &one, 1, dbase < 0 ? -1 : dbase + i));
            }
            return;
        }
        Rot r = genRot();
        for (int i = 0; i < 3; ++i) {
            u64 dv[3] = {0, 0, 0};
            dv[i] = 1;
            stf(p + 8 * i, mkd(f_mul(r.theta, r.a[i]), dv, 3, dbase));
        }
    }
    // series: element exp((base + sgn*s) a)
    void seriesRot(u64 pR, u64 pq, u64 paa, u64 prv, bool nearPi, u64 ldR = 3) {
        u64 a[3];
        unit3(a);
        SeriesDomain &S = *ser;
        SeriesDomain::El s = S.fromField(1);
        s.val = 1;
        s.fl = FL_NONNEG;
        fid fs = S.put(s);
        fid th = nearPi ? S.sub(S.constant(M_PI), fs) : fs;
        if (nearPi) th = S.withFlag(th, FL_NONNEG);
        fid half = S.constant(0.5);
        fid hs = S.sin(S.mul(th, half)), hc = S.cos(S.mul(th, half));
        hs = S.withFlag(hs, FL_NONNEG);
        hc = S.withFlag(hc, FL_NONNEG);
        fid ax[3], v[3];
        for (int i = 0; i < 3; ++i) {
            ax[i] = fieldv(a[i]);
            v[i] = S.mul(hs, ax[i]);
        }
        setPhi(th, ax);
        if (prv)
            for (int i = 0; i < 3; ++i) stf(prv + 8 * i, S.mul(th, ax[i]));
        if (pq) {
            for (int i = 0; i < 3; ++i) stf(pq + 8 * i, v[i]);
            stf(pq + 24, hc);
        }
        if (paa) {
            stf(paa, th);
            for (int i = 0; i < 3; ++i) stf(paa + 8 + 8 * i, ax[i]);
        }
        if (pR) {
            fid two = S.constant(2), one = S.constant(1);
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) {
                    fid e;
                    if (i == j) {
                        int i1 = (i + 1) % 3, i2 = (i + 2) % 3;
                        e = S.sub(one, S.mul(two, S.add(S.mul(v[i1], v[i1]), S.mul(v[i2], v[i2]))));
                    } else {
                        int l = 3 - i - j;
                        fid x = S.mul(hc, v[l]);
                        if (j == (i + 2) % 3)
                            e = S.mul(two, S.add(S.mul(v[i], v[j]), x));
                        else
                            e = S.mul(two, S.sub(S.mul(v[i], v[j]), x));
                    }
                    stf(pR + 8 * (ldR * j + i), e);
                }
        }
    }
    string comp(int i, int rows, int cols) {
        if (cols <= 1) return "[" + std::to_string(i) + "]";
        return "(" + std::to_string(i % rows) + "," + std::to_string(i / rows) + ")";
    }
    V wg(StringRef n, std::vector<V> &a) {
        auto I = [&](unsigned k) { return (int)(int32_t)a[k].i; };
        if (n == "wg_real") {
            int g = nextGen("coefficients", 1, 1);
            for (int i = 0; i < I(1); ++i) {
                u64 one = 1, v = D->rng.field();
                if (g == 1) v = 0;
                if (g == 3 && i == var.comp) v = f_const(var.c);
                if (g == 0) leafs[v] = {(int)gens.size() - 1, i};
                if (g == 2)
                    stf(a[0].i + 8 * i, timesS(v));
                else
                    stf(a[0].i + 8 * i, mkd(v, &one, 1, I(2) < 0 ? -1 : I(2) + i));
            }
            return V();
        }
        if (n == "wg_const") {  // constant with optional derivative
            u64 one = 1;
            double c;
            if (!D->isConst(asF(a[1], Type::getDoubleTy(M.getContext())), c)) throw Undecided{"wg_const"};
            u64 v = f_const(c);
            fid r;
            if (I(2) < 0)
                r = D->constant(c);
            else
                r = mkd(v, &one, 1, I(2));
            stf(a[0].i, r);
            return V();
        }
        if (n == "wg_sign") {
            fid f = ldf(a[0].i);
            DualDomain &A = atoms();
            u64 v = dual ? dual->el[f].v : ser->el[f].c[0];
            if (v == 0 || (ser && (ser->el[f].val || ser->el[f].zero))) throw Undecided{"the sign the entry assumes is not that of a special operand"};
            A.signs[v] = I(1);
            A.signs[f_neg(v)] = -I(1);
            A.noteRoot(f_mul(v, v), I(1) > 0 ? v : f_neg(v));
            if (I(1) > 0 && dual) A.fact(v, 0, INFINITY), stf(a[0].i, dual->withFlag(f, FL_NONNEG));
            return V();
        }
        if (n == "wg_vec3") {  // generic rotation vector, norm in (0, pi)
            genVec3(a[0].i, I(1), false);
            return V();
        }
        if (n == "wg_vec3w") {  // rotation vector of any length
            genVec3(a[0].i, I(1), true);
            return V();
        }
        if (n == "wg_phi") {  // the rotation vector (length < pi) of the last rotation or transform
            for (int i = 0; i < 3; ++i) stf(a[0].i + 8 * i, lastPhi[i]);
            stf(a[1].i, lastPhi[3]);
            return V();
        }
        if (n == "wg_rot") {  // R9, q4 (xyzw), aa4 (angle, axis), dbase
            int g = nextGen("rotation", 4, 2);
            if (g == 1 && !var.sub) return writeRot0(a[0].i, a[1].i, a[2].i, I(3)), V();
            if (g == 2) return seriesRot(a[0].i, a[1].i, a[2].i, 0, var.sub == 1), V();
            Rot r = genRot();
            writeRot(r, a[0].i, a[1].i, a[2].i, I(3));
            if (g == 1) otherRep(a[1].i, a[2].i, var.sub);
            return V();
        }
        if (n == "wg_rot0") {  // the identity rotation, exactly
            Rot r;
            memset(&r, 0, sizeof r);
            r.w = 1;
            r.R[0] = r.R[4] = r.R[8] = 1;
            writeRot(r, a[0].i, a[1].i, 0, I(3));
            if (a[2].i) {
                stf(a[2].i, D->constant(0));
                stf(a[2].i + 8, D->constant(1));
                stf(a[2].i + 16, D->constant(0));
                stf(a[2].i + 24, D->constant(0));
            }
            return V();
        }
        if (n == "wg_rotpi") {  // rotation by exactly pi about a generic axis; no derivative
            u64 ax[3];
            unit3(ax);
            if (a[0].i)
                for (int i = 0; i < 9; ++i) {
                    u64 v = f_mul(2, f_mul(ax[i % 3], ax[i / 3]));
                    if (i % 4 == 0) v = f_sub(v, 1);
                    stf(a[0].i + 8 * i, fieldv(v));
                }
            if (a[1].i) {
                for (int i = 0; i < 3; ++i) stf(a[1].i + 8 * i, fieldv(ax[i]));
                stf(a[1].i + 24, D->constant(0));
            }
            if (a[2].i) {
                stf(a[2].i, D->constant(M_PI));
                for (int i = 0; i < 3; ++i) stf(a[2].i + 8 + 8 * i, fieldv(ax[i]));
            }
            return V();
        }
        if (n == "wg_rotz") {  // series: R9,q4,aa4,rv3, nearPi
            if (!ser) throw Undecided{"wg_rotz outside Z mode"};
            seriesRot(a[0].i, a[1].i, a[2].i, a[3].i, I(4));
            return V();
        }
        if (n == "wg_se3") {  // t3, R9, q4, T16, aa4, dbase: generic rigid transform
            int g = nextGen("transform", 5, 3);
            int db = I(5);
            bool rot0 = g == 1 && var.sub == 0, t0 = g == 1 && var.sub == 1;
            bool rotN = g == 2 && var.sub != 1, tN = g == 2 && var.sub == 1;
            auto rotTo = [&](u64 pR, u64 pq, u64 paa, const Rot &r, u64 ld) {
                if (rot0)
                    writeRot0(pR, pq, paa, db, ld);
                else
                    writeRot(r, pR, pq, paa, db, ld);
            };
            fid ft[3];
            u64 t[3];
            if (rotN) {
                u64 keep = D->rng.s;
                seriesRot(a[1].i, a[2].i, a[4].i, 0, var.sub == 2);
                if (a[3].i) D->rng.s = keep, seriesRot(a[3].i, 0, 0, 0, var.sub == 2, 4);
            } else {
                Rot r = rot0 ? identityRot() : genRot();
                rotTo(a[1].i, a[2].i, a[4].i, r, 3);
                if (a[3].i) rotTo(a[3].i, 0, 0, r, 4);
                if (g == 1 && var.sub > 1) otherRep(a[2].i, a[4].i, var.sub - 1);
            }
            for (int i = 0; i < 3; ++i) t[i] = t0 ? 0 : D->rng.field();
            for (int i = 0; i < 3; ++i) {
                u64 dv[6] = {0, 0, 0, 0, 0, 0};
                int i1 = (i + 1) % 3, i2 = (i + 2) % 3;
                dv[i1] = t[i2];
                dv[i2] = f_neg(t[i1]);
                dv[3 + i] = 1;
                ft[i] = tN ? timesS(t[i]) : mkd(t[i], dv, 6, db);
                if (a[0].i) stf(a[0].i + 8 * i, ft[i]);
            }
            if (a[3].i) {
                for (int i = 0; i < 3; ++i) stf(a[3].i + 8 * (12 + i), ft[i]);
                for (int j = 0; j < 4; ++j) stf(a[3].i + 8 * (4 * j + 3), D->constant(j == 3));
            }
            return V();
        }
        if (n == "wg_lower") {  // lower triangular n x n (col major) with positive diagonal
            int k = I(1);
            for (int j = 0; j < k; ++j)
                for (int i = 0; i < k; ++i) {
                    if (i < j) {
                        stf(a[0].i + 8 * (k * j + i), D->constant(0));
                        continue;
                    }
                    u64 v = D->rng.field();
                    if (i == j) {
                        atoms().signs[v] = 1;
                        atoms().signs[f_neg(v)] = -1;
                        atoms().noteRoot(f_mul(v, v), v);
                        atoms().fact(v, 0, INFINITY);
                        atoms().fact(f_mul(v, v), 0, INFINITY);
                    }
                    stf(a[0].i + 8 * (k * j + i), fieldv(v));
                }
            return V();
        }
        if (n == "wg_undef") {
            for (int i = 0; i < I(1); ++i) stf(a[0].i + 8 * i, D->undef());
            return V();
        }
        // ---- obligations
        if (n == "wg_eq" || n == "wg_fin") {
            bool fin = n == "wg_fin";
            int k = I(fin ? 1 : 2);
            string lab = cstr(a[fin ? 2 : 3].i), bad, org;
            if (fin && var.kind != Variant::None) return V();
            if (var.kind == Variant::Near) {
                NearRec r;
                r.label = lab;
                r.diff = true;
                uint8_t m = FL_NAN | FL_UNDEF | FL_INF;
                for (int i = 0; i < k; ++i) {
                    fid x = ldf(a[0].i + 8 * i), y = ldf(a[1].i + 8 * i);
                    SeriesDomain::El e = SeriesDomain::zeroEl();
                    bool vac = (D->flags(y) & m) || (!ser->el[y].zero && ser->el[y].val < 0);
                    if (!vac) e = D->flags(x) & m ? ser->el[x] : ser->addE(ser->el[x], ser->el[y], true);
                    r.vals.push_back(e);
                    r.org.push_back(orgOf(x));
                }
                nears.push_back(r);
                return V();
            }
            for (int i = 0; i < k; ++i) {
                fid x = ldf(a[0].i + 8 * i), y = fin ? x : ldf(a[1].i + 8 * i);
                uint8_t fx = D->flags(x), fy = D->flags(y);
                uint8_t m = FL_NAN | FL_UNDEF | FL_INF;
                if (var.kind != Variant::None && (fy & m)) continue;  // the law is about a value that does not exist here
                bool ok = !(fx & m) && !(fy & m) && (fin || D->equal(x, y));
                if (ok && ser && fin && !ser->el[x].zero && ser->el[x].val < 0) ok = false;
                if (!ok && bad.empty()) {
                    bad = "component " + std::to_string(i) + ": " + D->show(x) + (fin ? "" : " vs " + D->show(y));
                    org = orgOf(x);
                    if (!fin && org.find("/repo/include") == string::npos) org = orgOf(y);
                }
            }
            ob(fin ? "finite" : "eq", lab, bad.empty() ? "ok" : "fail", bad, org);
            return V();
        }
        if (n == "wg_i") {
            string lab = cstr(a[2].i);
            bool ok = a[0].k == V::Int && a[1].k == V::Int && a[0].i == a[1].i;
            ob("int", lab, ok ? "ok" : "fail", ok ? "" : std::to_string((int64_t)a[0].i) + " vs " + std::to_string((int64_t)a[1].i),
               here());
            return V();
        }
        if (n == "wg_jac") {  // val, kind, J, rows, cols, dbase, label
            if (var.kind == Variant::Near) {  // the branches taken near the special operand agree
                NearRec r;
                r.label = "J " + cstr(a[6].i);
                r.where = here();
                for (int i = 0; i < I(3) * I(4); ++i) {
                    fid x = ldf(a[2].i + 8 * i);
                    r.vals.push_back(ser->el[x]);
                    r.org.push_back(orgOf(x));
                }
                nears.push_back(r);
                return V();
            }
            if (!dual) throw Undecided{"wg_jac in series mode"};
            if (var.kind != Variant::None && tie) return V();  // the value may not be differentiable here
            u64 val = a[0].i, J = a[2].i;
            int kind = I(1), rows = I(3), cols = I(4), db = I(5);
            string lab = cstr(a[6].i), bad, org;
            bool und = false;
            std::vector<fid> x;
            int nv = kind == 0 ? rows : kind == 1 ? 9 : 16;
            for (int i = 0; i < nv; ++i) x.push_back(ldf(val + 8 * i));
            for (int c = 0; c < cols; ++c)
                for (int r = 0; r < rows; ++r) {
                    fid j = ldf(J + 8 * (rows * c + r));
                    u64 want = 0;
                    uint8_t fl = 0;
                    if (kind == 0) {
                        want = dual->dval(x[r], db + c);
                        fl = D->flags(x[r]);
                    } else {
                        // [delta] = dR R^T
                        int ld = kind == 1 ? 3 : 4;
                        auto Rv = [&](int i, int k) { return dual->el[x[ld * k + i]].v; };
                        auto Rd = [&](int i, int k) { return dual->dval(x[ld * k + i], db + c); };
                        for (int i = 0; i < nv; ++i) fl |= D->flags(x[i]);
                        u64 w[3];
                        for (int k = 0; k < 3; ++k) {
                            int i = (k + 2) % 3, l = (k + 1) % 3;  // delta_k = S(i,l) with i=k+2,l=k+1
                            u64 s = 0;
                            for (int m = 0; m < 3; ++m) s = f_add(s, f_mul(Rd(i, m), Rv(l, m)));
                            w[k] = s;
                        }
                        if (r < 3)
                            want = w[r];
                        else {
                            int i = r - 3, i1 = (i + 1) % 3, i2 = (i + 2) % 3;
                            want = f_sub(Rd(i, 3), f_sub(f_mul(w[i1], Rv(i2, 3)), f_mul(w[i2], Rv(i1, 3))));
                        }
                    }
                    uint8_t fj = D->flags(j);
                    if (fl & FL_DUNK) und = true;
                    bool ok = !(fl & (FL_NAN | FL_UNDEF | FL_INF)) && !(fj & (FL_NAN | FL_UNDEF | FL_INF)) &&
                              dual->el[j].v == want;
                    if (!ok && bad.empty()) {
                        bad = "entry (" + std::to_string(r) + "," + std::to_string(c) + ") is " + D->show(j) +
                              ", the derivative is " + D->show(dual->mk(want, -1));
                        org = orgOf(j);
                        if (org.find("/repo/include") == string::npos) org = orgOf(x[0]);
                    }
                }
            if (var.kind != Variant::None) {
                for (fid q : x)
                    if (D->flags(q) & (FL_NAN | FL_UNDEF | FL_INF | FL_DUNK)) return V();
            }
            if (und) {
                bool nan = false;
                for (int i = 0; i < rows * cols; ++i) nan = nan || (D->flags(ldf(J + 8 * i)) & (FL_NAN | FL_UNDEF | FL_INF));
                if (!nan) {
                    ob("jac", lab, "undecided", "value not differentiable in the domain at this point", here());
                    return V();
                }
            }
            ob("jac", lab, bad.empty() ? "ok" : "fail", bad, org);
            return V();
        }
        if (n == "wg_deriv") {  // val, n, dbase, cols, out (n x cols): the derivative itself, as numbers
            if (!dual) throw Undecided{"wg_deriv in series mode"};
            for (int c = 0; c < I(3); ++c)
                for (int r = 0; r < I(1); ++r) {
                    fid x = ldf(a[0].i + 8 * r);
                    if (D->flags(x) & (FL_NAN | FL_UNDEF | FL_INF | FL_DUNK)) throw Undecided{"wg_deriv of a special value"};
                    stf(a[4].i + 8 * (I(1) * c + r), dual->mk(dual->dval(x, I(2) + c), -1));
                }
            return V();
        }
        if (n == "wg_guards") return V::I(oracle.taken.size());  // guards this path depends on
        if (n == "wg_near") {
            if (!ser) throw Undecided{"wg_near outside Z mode"};
            NearRec r;
            r.label = cstr(a[2].i);
            r.where = here();
            for (int i = 0; i < I(1); ++i) {
                fid x = ldf(a[0].i + 8 * i);
                r.vals.push_back(ser->el[x]);
                r.org.push_back(orgOf(x));
            }
            nears.push_back(r);
            return V();
        }
        if (n == "wg_pure_begin") {
            pure = true;
            pureLabel = cstr(a[0].i);
            for (auto &o : objs)
                if (o.kind == Obj::Heap && o.state == 1) o.prot = true;
            return V();
        }
        if (n == "wg_pure_end") {
            pure = false;
            prots.clear();
            for (auto &o : objs) o.prot = false;
            ob("purity", pureLabel, "ok", "", "");
            return V();
        }
        if (n == "wg_protect") {
            prots.push_back({a[0].i, a[1].i});
            return V();
        }
        if (n == "wg_noalloc_begin") {
            ++noalloc;
            noallocLabel = cstr(a[0].i);
            return V();
        }
        if (n == "wg_noalloc_end") {
            --noalloc;
            ob("alloc", noallocLabel, "ok", "", "");
            return V();
        }
        if (n == "wg_alloc_count") return V::I(allocCount);
        if (n == "wg_live_heap") {
            u64 k = 0;
            for (auto &o : objs)
                if (o.kind == Obj::Heap && o.state == 1) ++k;
            return V::I(k);
        }
        if (n == "wg_done") {
            ob("done", cstr(a[0].i), "ok", "", "");
            return V();
        }
        throw Undecided{"unknown intrinsic " + n.str()};
    }
