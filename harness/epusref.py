"""Independent vectorised statement of the elasto-plastic pore-group model
(Pham & Fredlund): every pore group is water filled or dry, has an air entry
and a water entry suction, a virgin and a rebound index, and remembers its
largest effective stress."""
import numpy as np
L = np.log10


class Soil(object):
    def __init__(s, wsat, a, b, wr, sl, logDS, logRS, Ccs, Css, Ccd, Gs, Assumption, beta, pm,
                 Pore_shape, K0, Npoint, NumSr, MaxSuction=6, MinSuction=-3):
        s.__dict__.update({k: v for k, v in locals().items() if k != 's'})
        s.cv = (1 + 2 * K0) / 3.0
        s.flagged = s.tie = False
        n = Npoint
        h = (MaxSuction - MinSuction) / n
        s.xa = MinSuction + h * np.arange(n)
        s.aev = 10 ** s.xa
        q = s.aev ** b
        # share of the pore space still collapsible and its suction derivative
        share = a * (1 - q * 10 ** (-6 * b)) / (q + a)
        dshare = -a * b * q / s.aev * (1 + a * 10 ** (-6 * b)) / (q + a) ** 2
        ar = a ** (1 / b)
        corr = 1 - np.log1p(s.aev / ar) / np.log1p(1e6 / ar)
        lin = wsat - sl * L(s.aev) / Gs - wr
        dw = (lin * dshare - share * sl / (s.aev * np.log(10) * Gs)) * corr - (share * lin + wr) / ((ar + s.aev) * np.log1p(1e6 / ar))
        width = 10 ** (s.xa + h) - s.aev
        s.cc = -dshare * Ccs * width
        s.cs = -dshare * Css * width
        s.cd = s.cc * (Ccd / Ccs)
        rv = (-Gs * dw * s.aev * np.log(10) - share * Ccs) * h
        s.rv = rv + (s.xa - MinSuction) * s.cc
        bw = (a / 10 ** (logDS * b)) ** (1 / logRS)
        dwt = b / logRS
        kd, kw = L(2.7 * a) / b, L(2.7 * bw) / dwt
        xw = np.where(s.xa > kd, s.xa - (kd - kw) * (6 - s.xa) / (6 - kd), (L(bw) + b * s.xa - L(a)) / dwt)
        s.wev = 10 ** xw
        s.srd = np.zeros(NumSr)
        s.srw = np.zeros(NumSr)

    def slurry(s):
        n = s.Npoint
        s.filled = np.ones(n, bool)
        s.dried = np.zeros(n, bool)
        s.ys = np.full(n, 1e-4)
        s.v = s.rv.copy()
        s.suction = 10.0 ** s.MinSuction
        s.stress = 10.0 ** s.MinSuction / 1000
        s.on, s.ref = 1, 1.0

    def ratio(s, ys, entry, closed, strict):
        """suction(0)/suction(p) for the pore groups"""
        out = np.ones(s.Npoint)
        t2 = s.wsat * s.Gs - s.Ccs * L(entry) - s.wr * s.Gs
        ok = (entry < ys) & (entry < (10 * s.a) ** (1 / s.b)) & ((t2 > 0) if strict else (t2 >= 0))
        t1 = (s.Ccs - s.Css) * L(ys) + s.Css * L(closed + s.stress) - s.Ccs * L(entry)
        with np.errstate(all='ignore'):
            r = 1 - s.Pore_shape * t1 / (3 * t2)
        bad = ok & (r <= 0)
        if bad.any():
            s.flagged = True
        return np.where(ok & ~bad, r, out)

    def vol(s, ys, p):
        return np.maximum(s.rv - (L(ys) - s.MinSuction) * s.cc + (L(ys) - L(p)) * s.cs, 0)

    def look(s, tab, suc):
        k = int((L(suc) - s.MinSuction) / ((s.MaxSuction - s.MinSuction) / s.NumSr))
        return tab[min(k, s.NumSr - 1)]

    def dry(s, suc):
        x = s.look(s.srd, suc)
        if s.on == 1 or s.ref > x:
            s.on, s.ref = 1, x
        else:
            s.on = 2
        guess = np.maximum(s.stress + s.aev, s.ys)
        lim = s.aev / s.ratio(s.ys, s.aev, s.aev, True)
        tie = s.filled & (np.abs(lim / suc - 1) < 1e-9)
        tie[0] = tie[0] and s.MinSuction % 1 != 0
        s.tie = s.tie or bool(tie.any())
        empt = s.filled & (lim <= suc)
        at = s.aev / s.ratio(guess, s.aev, s.aev, True)
        stay = s.filled & ~empt
        p = np.where(empt, s.stress + at, s.stress + suc)
        act = empt | stay
        s.ys = np.where(act, np.maximum(s.ys, p), s.ys)
        s.v = np.where(act, s.vol(s.ys, p), s.v)
        s.filled = stay
        s.dried = s.dried | empt
        s.suction = suc

    def dry_yield(s, p_ref, p):
        with np.errstate(all='ignore'):
            t = s.cv * 10 ** (L(p / s.aev) * (s.ref ** s.pm * (s.cc - s.cd) + s.cd) / s.cc + s.xa)
        return np.where(p_ref > s.aev, t, s.aev)

    def crush(s, rest, p_ref, p):
        """dry groups yield under net stress (assumption 1)"""
        if s.Assumption != 1:
            return
        t = s.dry_yield(p_ref, p)
        hit = rest & (s.cc > 0) & (t > s.ys)
        s.ys = np.where(hit, t, s.ys)
        s.v = np.where(hit, s.vol(s.ys, s.ys), s.v)

    def wet(s, suc):
        x = s.look(s.srw, suc)
        if s.on == 3 or s.ref < x:
            s.on, s.ref = 3, x
        else:
            s.on = 2
        guess = np.maximum(s.stress + s.wev, s.ys)
        at = s.wev / s.ratio(guess, s.aev, s.wev, False)
        s.tie = s.tie or bool((~s.filled & (np.abs(at / suc - 1) < 1e-9)).any())
        fill = ~s.filled & (at >= suc)
        rest = ~s.filled & ~fill
        was = s.filled
        s.ys = np.where(fill, np.maximum(s.ys, at + s.stress), np.where(was, np.maximum(s.ys, s.stress + suc), s.ys))
        s.v = np.where(fill | was, s.vol(s.ys, s.stress + suc), s.v)
        s.crush(rest, s.stress, s.stress)
        s.filled = was | fill
        s.suction = suc

    def load(s, p):
        guess = np.maximum(p + s.wev, s.ys)
        at = s.wev / s.ratio(guess, s.aev, s.wev, False)
        fill = ~s.filled & (at > s.suction)
        rest = ~s.filled & ~fill
        s.ys = np.where(s.filled, np.maximum(s.ys, p + s.suction), np.where(fill, guess, s.ys))
        s.v = np.where(s.filled | fill, s.vol(s.ys, s.suction + p), s.v)
        s.crush(rest, s.stress, p)
        s.filled = s.filled | fill
        s.stress = p

    def unload(s, p):
        s.v = np.where(s.filled, s.vol(s.ys, s.suction + p), s.v)
        s.stress = p

    def curves(s):
        s.slurry()
        d = (s.MaxSuction - s.MinSuction) / s.NumSr
        for i in range(s.NumSr):
            s.dry(10 ** (d * i + s.MinSuction))
            s.srd[i] = s.v[s.filled].sum() / s.v.sum()
        for i in range(s.NumSr):
            s.wet(10 ** (s.MaxSuction - d * i))
            s.srw[s.NumSr - 1 - i] = s.v[s.filled].sum() / s.v.sum()

    def run(s, path):
        """path: [(ist, value, npp)] -> list of (suction, stress, e, w) and number of groups that filled while loading"""
        if s.Assumption == 1:
            s.curves()
        s.slurry()
        s.tie = False          # a group exactly at its entry value: either state is right
        ct, cs = s.stress, s.suction
        out, s.filled_by_load = [], []
        for ist, vl, n in path:
            now = ct if ist else cs
            d = (L(vl) - L(now)) / (n - 1)
            rows, fl = [], False
            for j in range(n):
                x = 10 ** (L(now) + j * d)
                b = s.filled.sum()
                if ist:
                    (s.load if d > 0 else s.unload)(x * s.cv)
                else:
                    (s.dry if d > 0 else s.wet)(x)
                fl = fl or (ist and s.filled.sum() != b)
                w = np.where(s.dried, 1 - s.beta, 1.0)[s.filled] @ s.v[s.filled] / s.Gs
                rows.append((cs if ist else x, x if ist else ct, s.v.sum(), w))
            if ist:
                ct = vl
            else:
                cs = vl
            out.append(np.array(rows))
            s.filled_by_load.append(fl)
        return out
