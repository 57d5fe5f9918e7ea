"""
Independent reference model of the Carbon simulator, workload generator and trace monitors.

Reference model of an order (Litepaper): it sells `tkn` against `other`; its prices are
expressed in tkn per other; capacity yint, holdings y; with B=sqrt(pl), S=sqrt(ph)-sqrt(pl)
the marginal rate is p(y) = (B + S*y/yint)^2 and taking dy costs
dx = int_{y-dy}^{y} du/p(u) = dy*yint^2 / ((S*y+B*yint)*(S*(y-dy)+B*yint))
"""
from decimal import Decimal as D, localcontext
import math, random

PREC = 60


def dec(x):
    return x if isinstance(x, D) else D(str(x)) if isinstance(x, float) else D(x)


class RefOrder:
    __slots__ = ("id", "lid", "tkn", "other", "base", "quote", "pl", "ph", "y", "yint", "disabled", "B", "S", "cid")

    def __init__(self, id, lid, tkn, base, quote, pl, ph, y, yint, cid=""):
        self.id, self.lid, self.tkn, self.base, self.quote, self.cid = id, lid, tkn, base, quote, cid
        self.other = quote if tkn == base else base
        self.disabled = pl is None
        self.pl = None if pl is None else dec(pl)
        self.ph = None if ph is None else dec(ph)
        self.y, self.yint = dec(y), dec(yint)
        if not self.disabled:
            with localcontext() as c:
                c.prec = PREC
                self.B = self.pl.sqrt()
                self.S = self.ph.sqrt() - self.B

    def copy(self):
        o = RefOrder.__new__(RefOrder)
        for s in self.__slots__:
            if hasattr(self, s):
                setattr(o, s, getattr(self, s))
        return o

    def pmarg(self, y=None):
        """marginal rate, tkn per other"""
        y = self.y if y is None else y
        with localcontext() as c:
            c.prec = PREC
            return (self.B + self.S * y / self.yint) ** 2

    def dx_of_dy(self, dy):
        with localcontext() as c:
            c.prec = PREC
            a = self.S * self.y + self.B * self.yint
            return dy * self.yint ** 2 / (a * (a - self.S * dy))

    def dy_of_dx(self, dx):
        with localcontext() as c:
            c.prec = PREC
            a = self.S * self.y + self.B * self.yint
            return dx * a * a / (self.yint ** 2 + self.S * a * dx)

    def dy_to_price(self, sp):
        """amount that can be taken until the sqrt of the marginal rate falls to sp"""
        with localcontext() as c:
            c.prec = PREC
            if self.S == 0:
                return self.y if self.B > sp else D(0)
            t = self.yint * (sp - self.B) / self.S
            if t < 0:
                t = D(0)
            return self.y - t if t < self.y else D(0)

    @property
    def p_pair(self):
        """(p_start, p_end) in the quotation of the pair"""
        if self.disabled:
            return None, None
        if self.tkn == self.quote:
            return self.ph, self.pl
        return 1 / self.ph, 1 / self.pl


def optimal(orders, amount, by_target):
    """
    the best possible fill for the trader: water filling on the marginal rate.
    returns (dict id->(dy,dx), total_dy, total_dx, filled?)
    """
    with localcontext() as c:
        c.prec = PREC
        tot_y = sum(o.y for o in orders)
        tot_x = sum(o.dx_of_dy(o.y) for o in orders)
        total = tot_y if by_target else tot_x
        if amount >= total:
            return {o.id: (o.y, o.dx_of_dy(o.y)) for o in orders}, tot_y, tot_x, amount == total
        lo = min(o.B for o in orders) * D("0.999999")
        hi = max(o.B + o.S * o.y / o.yint for o in orders) * D("1.000001")

        def amt(sp):
            s = D(0)
            for o in orders:
                dy = o.dy_to_price(sp)
                if dy:
                    s += dy if by_target else o.dx_of_dy(dy)
            return s
        # amt decreases with sp
        for _ in range(130):
            mid = (lo + hi) / 2
            if amt(mid) > amount:
                lo = mid
            else:
                hi = mid
        alloc = {}
        rest = amount
        for o in orders:
            dy = o.dy_to_price(hi)
            if dy:
                alloc[o.id] = dy
                rest -= dy if by_target else o.dx_of_dy(dy)
        # what is left sits at (numerically) constant price
        p = hi * hi
        for o in sorted(orders, key=lambda o: -(o.dy_to_price(lo) - alloc.get(o.id, D(0)))):
            if rest <= 0:
                break
            cap = o.dy_to_price(lo) - alloc.get(o.id, D(0))
            if cap <= 0:
                continue
            take = min(cap, rest if by_target else rest * p)
            alloc[o.id] = alloc.get(o.id, D(0)) + take
            rest -= take if by_target else take / p
        byid = {o.id: o for o in orders}
        res = {i: (dy, byid[i].dx_of_dy(dy)) for i, dy in alloc.items() if dy > 0}
        return res, sum(v[0] for v in res.values()), sum(v[1] for v in res.values()), True


# --------------------------------------------------------------------------------------
# workload generation
TOKENS = ["ETH", "USDC", "WBTC", "DAI", "LINK", "BNT"]
PAIRS = [("ETH", "USDC"), ("WBTC", "USDC"), ("ETH", "DAI"), ("LINK", "ETH"), ("BNT", "ETH")]
MID = {("ETH", "USDC"): 2000, ("WBTC", "USDC"): 30000, ("ETH", "DAI"): 2000, ("LINK", "ETH"): 0.004,
       ("BNT", "ETH"): 0.0003}


def r_sig(rng, lo, hi, digits=4):
    """log uniform number with few significant digits"""
    v = math.exp(rng.uniform(math.log(lo), math.log(hi)))
    return float(f"%.{digits}g" % v)


def r_amt(rng, lo=0.05, hi=5000):
    k = rng.random()
    if k < 0.1:
        return rng.choice([1, 10, 100, 1000])
    return r_sig(rng, lo, hi, rng.choice([1, 2, 4, 7]))


def r_range(rng, mid, above):
    """a price range (start,end) above or below mid; start is nearer to mid"""
    k = rng.random()
    a = mid * (1 + (1 if above else -1) * rng.choice([0.0005, 0.01, 0.05, 0.1, 0.3]) * rng.random())
    if k < 0.10:
        b = a                                    # fixed price
    elif k < 0.25:
        b = a * (1 + (1 if above else -1) * 1e-4 * rng.uniform(0.1, 1))
    elif k < 0.85:
        b = a * (1 + (1 if above else -1) * rng.uniform(0.01, 0.5))
    else:
        b = a * (rng.uniform(2, 20) if above else 1 / rng.uniform(2, 20))
    if k >= 0.25:
        a, b = float("%.6g" % a), float("%.6g" % b)
    return a, b


def crowd(rng, lo, hi, p=0.1):
    """how many strategies: usually few, sometimes many, so that trades have many routes"""
    return rng.randint(8, 15) if rng.random() < p else rng.randint(lo, hi)


class World:
    """drives one simulator instance and shadows it with the reference model"""
    last_strategy = None

    def __init__(self, ctx, matching_method="exact", pair=None, raiseonerror=False, decimals=None, **kw):
        from carbon import CarbonSimulatorUI
        self.ctx = ctx
        self.mm = matching_method
        args = dict(pair=pair, matching_method=matching_method, raiseonerror=raiseonerror, **kw)
        if decimals is not None:
            args["decimals"] = decimals
        self.sim = CarbonSimulatorUI(**args)
        self.pair = pair
        self.model = {}          # id -> RefOrder
        self.ntrades = 0         # trades successfully routed (executed or not)
        self.strict_add = self.watch_inputs = False
        # most books hold everyday amounts, some those of the largest pools or of tokens with many units
        self.mag = random.Random(f"mag{ctx.case}{ctx.seed}").choice([1] * 10 + [1e4, 1e7])
        ctx.log("sim", args)

    # -- parameters --> model
    @staticmethod
    def model_order(id, lid, tkn, base, quote, amt, p_start, p_end, p_marg=None, y_int=None, cid=""):
        """prices in pair convention"""
        amt = dec(0 if amt is None else amt)
        if p_start is None and p_end is None:
            return RefOrder(id, lid, tkn, base, quote, None, None, amt, amt, cid)
        with localcontext() as c:
            c.prec = PREC
            conv = (lambda p: dec(p)) if tkn == quote else (lambda p: 1 / dec(p))
            a, b = conv(p_start), conv(p_end)
            pl, ph = min(a, b), max(a, b)
            if p_marg is not None:
                m = conv(p_marg)
                y_int = amt * (ph.sqrt() - pl.sqrt()) / (m.sqrt() - pl.sqrt())
            elif y_int is None:
                y_int = amt
            return RefOrder(id, lid, tkn, base, quote, pl, ph, amt, dec(y_int), cid)

    def add_strategy(self, tkn, amt_sell=None, ps0=None, ps1=None, amt_buy=None, pb0=None, pb1=None,
                     base=None, quote=None, pair=None, psm=None, pbm=None, yis=None, yib=None, cid=None, single=False):
        """adds to simulator and model; returns (id1, id2)"""
        pair = pair or f"{base}/{quote}"
        other = quote if tkn == base else base
        if single:
            r = self.sim.add_order(tkn, amt_sell, ps0, ps1, pair=pair, p_marginal=psm, y_int=yis)
        else:
            kw = {}
            if cid is not None:
                kw["carbon_id"] = cid
            r = self.sim.add_strategy(tkn, amt_sell, ps0, ps1, amt_buy, pb0, pb1, pair=pair, psell_marginal=psm,
                                      pbuy_marginal=pbm, y_int_sell=yis, y_int_buy=yib, **kw)
        self.ctx.log("add", tkn, amt_sell, ps0, ps1, amt_buy, pb0, pb1, pair, psm, pbm, yis, yib, r.get("error"))
        if not r["success"]:
            # not what most properties are about; P09 sets strict
            if self.strict_add:
                self.ctx.fail("add-refused", f"valid strategy refused: {r['error']}")
            self.ctx.skip("add refused")
        ids = list(r["orders"]["id"])
        i1, i2 = int(ids[0]), int(ids[1])
        self.model[i1] = self.model_order(i1, i2, tkn, base, quote, amt_sell, ps0, ps1, psm, yis, cid or "")
        self.model[i2] = self.model_order(i2, i1, other, base, quote, amt_buy, pb0, pb1, pbm, yib, cid or "")
        return i1, i2

    def random_strategy(self, rng=None, pairs=None, sides=None, full=False):
        rng = rng or self.ctx.rng
        if self.last_strategy and rng.random() < 0.05: return self.add_strategy(**self.last_strategy)     # the same again
        base, quote = rng.choice(pairs or PAIRS[:1])
        mid = MID.get((base, quote)) or 1 / MID[(quote, base)]
        mid = mid * rng.uniform(0.97, 1.03)
        swap = rng.random() < 0.3                       # strategy expressed from the quote token's side
        kind = rng.random()
        usd = r_amt(rng, 50, 2e6) * self.mag
        s0, s1 = r_range(rng, mid, True)
        b0, b1 = r_range(rng, mid, False)
        asell, abuy = float("%.5g" % (usd / mid / (1 if quote in ("USDC", "DAI") else 2000))), \
            float("%.5g" % (usd * rng.uniform(0.2, 3) / (1 if quote in ("USDC", "DAI") else 2000)))
        if rng.random() < 0.12:
            asell = r_amt(rng, 0.05, 3) * self.mag
        if rng.random() < 0.06:
            asell = int(asell) + 1
        psm = pbm = yis = yib = None

        def fill(amt, p0, p1):
            """partly filled: returns (p_marg, y_int)"""
            if p0 == p1 or full:
                return None, None
            k = rng.random()
            if k < 0.6:
                return None, None
            if k < 0.85:
                return None, float("%.9g" % (amt * rng.choice([1.0000001, 1.5, 3, 20]) + 1e-6))
            if abs(p1 / p0 - 1) < 1e-3:
                return None, None
            if k > 0.97:
                return rng.choice([(p0 + p1) / 2, 2 / (1 / p0 + 1 / p1), math.sqrt(p0 * p1)]), None
            return p0 + (p1 - p0) * rng.uniform(0.05, 0.9), None
        psm, yis = fill(asell, s0, s1)
        pbm, yib = fill(abuy, b0, b1)
        if rng.random() < 0.05:
            s0, s1 = s1, s0
        if swap:
            # tkn := quote; the "sell" side sells quote below, the "buy" side sells base above
            args = dict(tkn=quote, amt_sell=abuy, ps0=b0, ps1=b1, psm=pbm, yis=yib,
                        amt_buy=asell, pb0=s0, pb1=s1, pbm=psm, yib=yis)
        else:
            args = dict(tkn=base, amt_sell=asell, ps0=s0, ps1=s1, psm=psm, yis=yis,
                        amt_buy=abuy, pb0=b0, pb1=b1, pbm=pbm, yib=yib)
        if kind < 0.25:
            for k in ("amt_buy", "pb0", "pb1", "pbm", "yib"):
                args.pop(k)
            if kind < 0.18:
                args["single"] = True
        elif kind < 0.33:
            args["amt_buy"] = 0
            args["pbm"] = args["yib"] = None
        self.last_strategy = dict(args, base=base, quote=quote)
        return self.add_strategy(base=base, quote=quote, **args)

    def eligible(self, tkn, base, quote, use=None):
        return [o for o in self.model.values()
                if o.tkn == tkn and {o.base, o.quote} == {base, quote} and not o.disabled and o.y > 0
                and (use is None or o.id in use)]

    # -- trades
    def trade(self, by_target, tkn, amt, base, quote, alias=False, **kw):
        """
        by_target: the AMM sells `amt` of tkn; otherwise the AMM buys `amt` of tkn.
        returns raw result
        """
        # what the AMM sells is what the trader buys; a negative amount is the same trade the other way round
        if amt > 0 and random.Random(f"{by_target}{tkn}{amt}{base}{self.ntrades}").random() < 0.12:
            by_target, amt = not by_target, -amt
        f = (self.sim.trader_buys if alias else self.sim.amm_sells) if by_target else \
            (self.sim.trader_sells if alias else self.sim.amm_buys)
        use = kw.get("use_positions"); copy_ = list(use) if isinstance(use, list) else None
        r = f(tkn, amt, pair=kw.pop("pair", f"{base}/{quote}"), **kw)
        if copy_ is not None and self.watch_inputs:
            self.ctx.check("untouched", use == copy_, "filter-changed", f"the list of positions {copy_} became {use}")
        self.ctx.log("trade", "amm_sells" if by_target else "amm_buys", tkn, amt, f"{base}/{quote}", kw,
                     "->", "ok" if r["success"] else r["error"])
        if r["success"]:
            self.ntrades += 1
        return r

    @staticmethod
    def routes(r):
        """the per-route records and the aggregate record of a trade result"""
        df = r["trades"]
        rows = df.to_dict(orient="records")
        rt = [x for x in rows if not x["aggr"]]
        ag = [x for x in rows if x["aggr"]]
        return rt, ag

    def snapshot(self):
        return {i: (o.y, o.y_int, o.linked_to_id, o.tkn, o.disabled) for i, o in self.sim.orders.items()}

    def apply(self, r):
        """applies an executed trade's reported fills to the model"""
        rt, ag = self.routes(r)
        for row in rt:
            o = self.model[int(row["routeix"])]
            o.y = o.y - D(row["amt1"])
            if o.lid != o.id:
                l = self.model[o.lid]
                l.y = l.y + D(row["amt2"])
                if l.y > l.yint:
                    l.yint = l.y
        return rt, ag

    def sync(self):
        """take over the simulator's own state (kills accumulated rounding differences)"""
        for i, o in self.sim.orders.items():
            self.model[i].y, self.model[i].yint = dec(o.y), dec(o.y_int)

    def compare(self, monitor, mech, rel=1e-10, abs_=1e-9):
        ctx = self.ctx
        ctx.check(monitor, set(self.model) == set(self.sim.orders), mech + ":ids",
                  f"order ids {sorted(self.sim.orders)} expected {sorted(self.model)}")
        for i, m in self.model.items():
            o = self.sim.orders[i]
            ctx.close(monitor, o.y, m.y, mech + ":y", rel, abs_ + rel * float(m.yint), f"holdings of order {i}")
            ctx.close(monitor, o.y_int, m.yint, mech + ":yint", rel, abs_, f"capacity of order {i}")
            ctx.check(monitor, o.linked_to_id == m.lid, mech + ":link", f"link of order {i}: {o.linked_to_id} expected {m.lid}")


def fill_tol(o, dy, dx):
    """
    tolerance for dx and dy of one fill: both are published rounded to 12 decimals
    """
    r = float(o.pmarg())                       # dy/dx at the start
    return 2e-12 * (1 + 1 / max(float(o.pmarg(o.y - dy) if dy < o.y else o.pl), 1e-300)) + 1e-9 * abs(float(dx)), \
        2e-12 * (1 + r) + 1e-9 * abs(float(dy))


def random_trade(ctx, w, pairs, frac=None):
    """picks a plausible trade; returns dict(by_target,tkn,amt,base,quote,out) or None"""
    rng = ctx.rng
    for _ in range(6):
        base, quote = rng.choice(pairs)
        out = rng.choice([base, quote])
        inn = quote if out == base else base
        orders = w.eligible(out, base, quote)
        if not orders:
            continue
        by_target = rng.random() < 0.5
        toty = sum(o.y for o in orders)
        totx = sum(o.dx_of_dy(o.y) for o in orders)
        tot = float(toty if by_target else totx)
        f = frac if frac is not None else rng.choice([rng.uniform(0.01, 0.3), rng.uniform(0.3, 0.97), rng.uniform(0.3, 0.97), rng.uniform(0.9, 0.998), 10 ** rng.uniform(-4, -1)])
        amt = tot * f
        amt = float("%.*g" % (rng.choice([2, 5, 12]), amt))
        if amt <= 1e-7 or amt >= tot * 0.9999 and f < 1:
            continue
        if rng.random() < 0.15 and amt > 5:
            amt = int(amt)
        return dict(by_target=by_target, tkn=out if by_target else inn, amt=amt, base=base, quote=quote, out=out, inn=inn)
    return None


def check_fills(ctx, w, rt, monitor="curve", mech="off-curve"):
    """every fill must sit on the bonding curve of its order (model state = state before the trade)"""
    seen = set()
    for row in rt:
        i = int(row["routeix"])
        ctx.check(monitor, i in w.model, mech + ":unknown-order", f"route through order {i} that does not exist")
        ctx.check(monitor, i not in seen, mech + ":dup", f"order {i} used twice in one trade")
        seen.add(i)
        o = w.model[i]
        dy, dx = D(row["amt1"]), D(row["amt2"])
        ctx.check(monitor, dy <= o.y * (1 + D("1e-12")) + D("2e-12"), mech + ":overdraw",
                  f"order {i} sells {dy} of {o.y}")
        dy = min(dy, o.y)
        tx, ty = fill_tol(o, dy, dx)
        exp = o.dx_of_dy(dy)
        ctx.check(monitor, abs(float(dx - exp)) <= tx, mech,
                  f"order {i} ({o.tkn}, pl={o.pl}, ph={o.ph}, y={o.y}, yint={o.yint}): sells {dy} for {dx}, curve says {float(exp)}")
