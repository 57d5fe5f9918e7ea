From 1875b99c49ccf00c37f0befcb804a8226eedf51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 001/122] fix: Order.x0/y0 use the actual curve capacity, also
 below 1

---
 carbon/order.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/order.py b/carbon/order.py
index 56e2882..fe038b6 100644
--- a/carbon/order.py
+++ b/carbon/order.py
@@ -101,7 +101,7 @@ class Order:
     def x0(self) -> Decimal:
         n: Decimal = self.n
         p: Decimal = self.p
-        y_int: Decimal = max(self.y_int, Decimal("1"))
+        y_int: Decimal = self.y_int
         return (y_int * (1 - n)) / (p * (2 - n))
 
     @property
@@ -124,7 +124,7 @@ class Order:
 
     @property
     def y0(self) -> Decimal:
-        y_int: Decimal = max(self.y_int, Decimal("1"))
+        y_int: Decimal = self.y_int
         n: Decimal = self.n
         return (y_int * (1 - n)) / (2 - n)
 
-- 
2.43.0


From 2a738ef7a8349766bfc310f18a8cf97d1b1bc4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 002/122] fix: delete_order also removes a linked order whose
 id is 0

---
 carbon/simulators/carbon_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index eea72fa..c8a13a5 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -583,19 +583,19 @@ class CarbonSimulatorUI:
 
         del self.orders[position_id]
 
-        if linked_position_id:
+        if linked_position_id is not None:
             del self.orders[linked_position_id]
 
         if self.verbose:
             str2 = (
                 f"and linked position {linked_position_id}"
-                if linked_position_id
+                if linked_position_id is not None
                 else ""
             )
             print(f"Deleted position {position_id} {str2}[{pair}]")
 
         return (
-            [position_id, linked_position_id] if linked_position_id else [position_id]
+            [position_id, linked_position_id] if linked_position_id is not None else [position_id]
         )
     delete_strategy = delete_order
 
-- 
2.43.0


From 02c87434288b3cecb0ec102af207d4427251bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 003/122] fix: a strategy that fails to be added leaves no
 order behind

---
 carbon/simulators/carbon_simulator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index c8a13a5..ca7df78 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -485,13 +485,14 @@ class CarbonSimulatorUI:
         :y_int:         y_int >= amt is used as curve capacity, marginal price adapts
         """
         
+        id1, id2 = None, None
         try:
 
             # validate tkn, pair and get CarbonPair object
             carbon_pair = self.get_carbon_pair(pair)
             tkn2 = carbon_pair.other(tkn)
             if tkn2 is None:
-                raise ValueError("Token not in pair", tkn, carbon_pair.slashpair, pair.slashpair)
+                raise ValueError("Token not in pair", tkn, carbon_pair.slashpair, carbon_pair.slashpair)
 
             # create order tracking ids
             id1 = self._posid
@@ -554,6 +555,9 @@ class CarbonSimulatorUI:
 
 
         except Exception as e:
+            # a strategy is added completely or not at all
+            if id1 is not None: self.orders.pop(id1, None)
+            if id2 is not None: self.orders.pop(id2, None)
             if self.raiseonerror:
                 raise
             return {"success": False, "error": str(e), "exception": e}
-- 
2.43.0


From ad5fb97e46759367b133f2b1ee4e50818ab19f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 004/122] fix: from_isopair_and_tkn splits pairs whose tokens
 contain each other (WETH/ETH)

---
 carbon/pair.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/carbon/pair.py b/carbon/pair.py
index baf1a0e..6219633 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -193,18 +193,17 @@ class CarbonPair:
                     tkn,
                 )
         else:
-            tkn2 = isopair.replace(tkn, ".")
-            if tkn2 == isopair:
+            if not tkn or not tkn in isopair:
                 raise ValueError(
                     "Invalid token specification (tkn not part of isopair)",
                     isopair,
                     tkn,
                 )
-            if tkn2[0] == ".":
+            if isopair.startswith(tkn):
                 tknb = tkn
-                tknq = tkn2[1:]
-            elif tkn2[-1] == ".":
-                tknb = tkn2[:-1]
+                tknq = isopair[len(tkn):]
+            elif isopair.endswith(tkn):
+                tknb = isopair[:-len(tkn)]
                 tknq = tkn
             else:
                 raise ValueError(
-- 
2.43.0


From 75fa161a54835fadafec3162ec39e2c846b55ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 005/122] fix: CarbonPair.from_slashpair applies both elements
 of the decimals tuple

---
 carbon/pair.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/pair.py b/carbon/pair.py
index 6219633..8cdd50e 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -227,7 +227,8 @@ class CarbonPair:
         tknb = tokens[0].strip()
         tknq = tokens[1].strip()
         newobj = cls(f"{tknb}/{tknq}")
-        newobj.set_decimals(decimals)
+        if not decimals is None:
+            newobj.set_decimals(*decimals)
         return newobj
         
 
-- 
2.43.0


From 645d2d82b350ea25f2e179bba28d37c75f4cdcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 006/122] fix: the reverse of a CarbonPair keeps the token
 decimals

---
 carbon/pair.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/pair.py b/carbon/pair.py
index 8cdd50e..28d2780 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -306,7 +306,9 @@ class CarbonPair:
         """
         returns the pair with base and quote token reversed
         """
-        return self.__class__(tknb=self.tknq, tknq=self.tknb)
+        return self.__class__(tknb=self.tknq, tknq=self.tknb).set_decimals(
+            self._tknq_decimals, self._tknb_decimals
+        )
 
     @property
     def basetoken(self):
-- 
2.43.0


From f90119c5a67b7443fc7b4c6fd6030af6f0f7a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 007/122] fix: CarbonPair.limit_is_met honours its reverse
 parameter

---
 carbon/pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/pair.py b/carbon/pair.py
index 28d2780..0ad0c28 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -454,6 +454,10 @@ class CarbonPair:
         if current_price == limit_price:
             return True
 
+        # from the point of view of the order accepter buy and sell are exchanged
+        if reverse and buysell in (self.BUY, self.SELL):
+            buysell = self.SELL if buysell == self.BUY else self.BUY
+
         reverse = self.has_quotetoken(tkn)
 
         if buysell == self.BUY:
-- 
2.43.0


From 47e00a2c351e5aa4a0e3fad8ba26d7e3ec224f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 008/122] fix: trades with negative amounts honour
 use_positions

---
 carbon/simulators/carbon_simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index ca7df78..f46bedc 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -970,6 +970,8 @@ class CarbonSimulatorUI:
                     limit_price=limit_price,
                     limit_amt=limit_amt,
                     threshold_orders=threshold_orders,
+                    use_positions=use_positions,
+                    use_positions_matchlevel=use_positions_matchlevel,
                     support_partial=support_partial,
                 )
 
@@ -1049,6 +1051,8 @@ class CarbonSimulatorUI:
                     limit_price=limit_price,
                     limit_amt=limit_amt,
                     threshold_orders=threshold_orders,
+                    use_positions=use_positions,
+                    use_positions_matchlevel=use_positions_matchlevel,
                     support_partial=support_partial,
                 )
 
-- 
2.43.0


From f0c4cedbd84024e43dc3ccedc3fa54a66168ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 009/122] fix: trades match orders by token pair, not by
 concatenated token names

---
 carbon/simulators/carbon_simulator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index f46bedc..87ec620 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -684,8 +684,8 @@ class CarbonSimulatorUI:
             order_ids = [
                 k
                 for k in self.orders.keys()
-                if self.orders[k].pair_name
-                   in [carbon_pair.pair_iso, carbon_pair_r.pair_iso]
+                if self.orders[k].pair.slashpair
+                   in [carbon_pair.slashpair, carbon_pair_r.slashpair]
                    and self.orders[k].tkn == tkn
                    and not self.orders[k].disabled
                 if self.orders[k].y > 0
@@ -1250,10 +1250,10 @@ class CarbonSimulatorUI:
         """
         PRIVATE - checks if pair has any liquid positions (raises if not)
         """
-        orders = {o.pair_name for o in self.orders.values() if o.y > 0}
+        orders = {o.pair.slashpair for o in self.orders.values() if o.y > 0}
         if (
-                carbon_pair.pair_iso not in orders
-                and carbon_pair.reverse.pair_iso not in orders
+                carbon_pair.slashpair not in orders
+                and carbon_pair.reverse.slashpair not in orders
         ):
             raise ValueError(f"valid liquidity positions for {carbon_pair.pair_iso}")
 
-- 
2.43.0


From 593de616a5e24822911e6143ef01723cf9fef8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 010/122] fix: limit prices are checked against the right price
 when fast-matching by target

---
 carbon/simulators/carbon_simulator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 87ec620..7757d03 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -725,6 +725,9 @@ class CarbonSimulatorUI:
             # :input:       the asset BOUGHT by the AMM, and SOLD by the TRADER
             #               input is a POSITIVE number
             raw_price = -final_route.total_output / final_route.total_input
+            if is_by_target and isinstance(self.matcher, FastRouter):
+                # this router has input and output exchanged when matching by target
+                raw_price = 1 / raw_price
             if self.debug:
                 print("[_trade] final route", final_route)
                 print(
@@ -844,7 +847,7 @@ class CarbonSimulatorUI:
                         1
                     ],  # the number of routes across which the trade was executed
                     "price": [
-                        round(float(price_avg), decimals) if not (is_by_target and isinstance(self.matcher, FastRouter)) else round(float(1 / Decimal(price_avg)), decimals)
+                        round(float(price_avg), decimals)
                     ],  # the price amt_/amt_, in the convention of the pair
                     "p_unit": [
                         f"{tknq} per {tknb}"
@@ -896,7 +899,7 @@ class CarbonSimulatorUI:
                 "routeix": [str(order_ids)],
                 "nroutes": [num_trades],
                 "price": [
-                    round(float(price_avg), decimals) if not (is_by_target and isinstance(self.matcher, FastRouter)) else round(float(1 / Decimal(price_avg)), decimals)
+                    round(float(price_avg), decimals)
                     ],
                 "p_unit": [f"{tknq} per {tknb}"],
             }
-- 
2.43.0


From dd207e9e5961edb685c6db049e97e15ff7343a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 011/122] fix: FastRouter refuses trades it cannot fill unless
 partial fills are allowed

---
 carbon/routers/fast_router.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/carbon/routers/fast_router.py b/carbon/routers/fast_router.py
index 87b0d4b..a8330c1 100644
--- a/carbon/routers/fast_router.py
+++ b/carbon/routers/fast_router.py
@@ -170,6 +170,7 @@ class FastRouter(BaseRouter):
 
         actions = []
         x = abs(x)
+        x_requested = x
         for quote in sorted(
                 [Quote(n, trade(x, n)) for n in self.indexes], key=cmp_to_key(cmp)
         ):
@@ -202,6 +203,13 @@ class FastRouter(BaseRouter):
                     )
                     break
 
+        # the request must be filled completely unless partial fills are allowed
+        x_filled = sum(action.input for action in actions)
+        if check_sufficient_liquidity and not support_partial:
+            assert (
+                not actions or x_requested - x_filled <= x_requested * Decimal("1e-12")
+            ), "Insufficient liquidity across all user positions to support this trade."
+
         # Format the output
         match_method = "by_src" if not is_by_target else "by_target"
         actions[0].total_output = actions[0].output
@@ -238,6 +246,7 @@ class FastRouter(BaseRouter):
             is_by_target=is_by_target,
             completed_trade=False,
             check_sufficient_liquidity=check_sufficient_liquidity,
+            support_partial=support_partial,
         )
 
     def match_by_target(
@@ -255,6 +264,7 @@ class FastRouter(BaseRouter):
             is_by_target=is_by_target,
             completed_trade=False,
             check_sufficient_liquidity=check_sufficient_liquidity,
+            support_partial=support_partial,
         )
 
     def __post_init__(self):
-- 
2.43.0


From 5cd199ae60f5d7a712c5571896764225b09f4e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 012/122] fix: AlphaRouter values partly used orders at the
 cost of draining them

---
 carbon/routers/alpha_router.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/routers/alpha_router.py b/carbon/routers/alpha_router.py
index adc20fe..3add0c4 100644
--- a/carbon/routers/alpha_router.py
+++ b/carbon/routers/alpha_router.py
@@ -344,8 +344,9 @@ class AlphaRouter(BaseRouter):
         available_value = []
         for k, v in hypothetical_output_amts.items():
             if v > self.orders[k].y:
-                price = self.get_geoprice(k)
                 amount = self.orders[k].y
+                # the effective price for draining the order from its current state
+                price = abs(self.amt_by_target(dx=amount, subject=k)) / amount
                 amounts += [amount]
                 effective_prices += [price]
                 available_value += [price * amount]
-- 
2.43.0


From b739c61562d035bcdb139b27ab04910c9d610143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 013/122] fix: a CarbonOrderUI.selly quote leaves both curves
 untouched and agrees with the execution

The linked curve was credited even with execute=False, an order linked to itself
was credited with the amount of the other token, and a trade that expands the
curve was quoted on another curve than it was executed on.
---
 carbon/carbon_order_ui.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 4ce0add..460ceda 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -960,7 +960,6 @@ class CarbonOrderUI:
         yold = self.y
         pold = self.p_marg
         ynew = self.y - dy
-        pnew = self.p_marg_f(dy, checkbounds=False)
 
         if ynew < -self.EPSILON:
                 if raiseonerror:
@@ -975,22 +974,30 @@ class CarbonOrderUI:
             else:
                 yintold = self.yint
                 yint = ynew
-                if execute:
-                    self.yint = ynew
                 curve_expanded = True
         else:
             curve_expanded = False
             yint = self.yint
             if ynew<0: ynew = 0  # see if ynew < -self.EPSILON
 
-        dx = self.dxfromdy_f(dy, checkbounds=False, raiseonerror=True)
+        # all amounts and prices refer to the (possibly expanded) curve
+        yint_before = self.yint
+        self.yint = yint
+        try:
+            pnew = self.p_marg_f(dy, checkbounds=False)
+            dx = self.dxfromdy_f(dy, checkbounds=False, raiseonerror=True)
+            xnew = self.xfromy_f(ynew)
+            if self.linked and not self.linked is self:
+                result_linked = self.linked.addliqy(dx, execute=execute)
+            else:
+                result_linked = None
+        except:
+            self.yint = yint_before
+            raise
         if execute:
             self.y = ynew
-
-        if self.linked:
-            result_linked = self.linked.addliqy(dx)
         else:
-            result_linked = None
+            self.yint = yint_before
 
         result = {
             "action":       "bysource[selly]",
@@ -1001,7 +1008,7 @@ class CarbonOrderUI:
             "yint_old":     yintold if curve_expanded else None,
             "y_int":        yint,
             "expanded":     curve_expanded,
-            "x":            self.xfromy_f(ynew),
+            "x":            xnew,
             "dx":           dx,
             "tkny":         self.tkny,
             "tknx":         self.tknx,
@@ -1056,17 +1063,19 @@ class CarbonOrderUI:
         result["action"] = "byprice[tradeto]"
         return result
         
-    def addliqy(self, dy, expandcurve=True):
+    def addliqy(self, dy, expandcurve=True, execute=True):
         """
         adds liquidity to the curve (typically called on a linked curve)
 
         :dy:            the amount of liquidity to be added (must be positive)
         :expandcurve:   if True (default), expand yint=y if need be
+        :execute:       if False, only display results but do not update the object
         :returns:       a dict containing extensive information about the tx
         """
         if dy < 0:
             raise ValueError("Liquidity amount dy must not be < 0", dy)
         
+        yold, yintold = self.y, self.yint
         newy = self.y + dy
         result = {
             "y_old":        self.y,
@@ -1087,6 +1096,8 @@ class CarbonOrderUI:
             result["expanded"] = True
         self.y = newy
         result["pmarg"] = self.p_marg
+        if not execute:
+            self.y, self.yint = yold, yintold
         return result
         
     @staticmethod
-- 
2.43.0


From 50256d6bf89db4c6990077c3739e54ef030404f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 014/122] fix: CarbonOrderUI.buyx returns None for amounts
 beyond capacity, as documented

---
 carbon/carbon_order_ui.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 460ceda..77b8635 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -1037,6 +1037,8 @@ class CarbonOrderUI:
         """
         dy = self.dyfromdx_f(dx, checkbounds=False, raiseonerror=True)
         result = self.selly(dy, execute, allowneg, expandcurve, raiseonerror)
+        if result is None:
+            return None
         result["action"] = "bytarget[buyx]"
         return result
 
-- 
2.43.0


From 9388c78b793c1a9652c84c7e964291eed020e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 015/122] fix: a CarbonOrderUI.tradeto quote leaves an empty
 curve untouched

---
 carbon/carbon_order_ui.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 77b8635..c16b150 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -1050,6 +1050,7 @@ class CarbonOrderUI:
         :execute:       if False, only display results, but do not update the object
         :returns:       a dict containing extensive information about the tx
         """
+        yint_before = self.yint
         if self.yint == 0:
             self.yint = 1e-50 # selly fails on a fully empty curve, even with dy=0
         try:
@@ -1062,6 +1063,8 @@ class CarbonOrderUI:
         result = self.selly(dy, execute, allowneg=False, expandcurve=False, raiseonerror=True)
         if result is None:
             raise RuntimeError(f"Unexpected None value at {p_marg}", dy, self.yint, self.y, self.p_marg, p_marg, self)
+        if not execute:
+            self.yint = yint_before
         result["action"] = "byprice[tradeto]"
         return result
         
-- 
2.43.0


From 7f7edb2c4788464222021dfb3d024c868ceb2899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 016/122] fix: CarbonOrderUI.tradeto works for fixed price
 curves

---
 carbon/carbon_order_ui.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index c16b150..bc92a39 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -622,6 +622,8 @@ class CarbonOrderUI:
                 if raiseonerror:
                     raise self.PriceOutOfBoundsErrorBeyondEnd("Price out of bounds (beyond end)", p, self.pb)
                 return 0
+        if self.S == 0:
+            return self.y # fixed price curve: y is not determined by the price
         y = self.yint * (sqrt(dydx) - self.B) / self.S
         if checkbounds:
             if y > self.y:
@@ -1059,7 +1061,7 @@ class CarbonOrderUI:
                 self.PriceOutOfBoundsErrorBeyondMarg):
             dy = 0
         except self.PriceOutOfBoundsErrorBeyondEnd:
-            dy = self.dyfromp_f(self.p_end, checkbounds=False, raiseonerror=False)
+            dy = self.y
         result = self.selly(dy, execute, allowneg=False, expandcurve=False, raiseonerror=True)
         if result is None:
             raise RuntimeError(f"Unexpected None value at {p_marg}", dy, self.yint, self.y, self.p_marg, p_marg, self)
-- 
2.43.0


From 228e00a54db3deae03c7af6d018b22b297a43f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 017/122] fix: error paths of the CarbonOrderUI curve functions
 raise the intended error

---
 carbon/carbon_order_ui.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index bc92a39..523526a 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -547,7 +547,7 @@ class CarbonOrderUI:
         
         if self.yint == 0:
             if not self.y == 0 and dy == 0:
-                raise ValueError("If yint=0 you must also have y,dy=0", yint, y, dy)
+                raise ValueError("If yint=0 you must also have y,dy=0", self.yint, y, dy)
             dydx = ((self.B + self.S))**2
         else:
             dydx = ((self.B + self.S * y/self.yint))**2
@@ -583,7 +583,7 @@ class CarbonOrderUI:
 
         if self.yint == 0:
             if not y0 == 0 and dy == 0:
-                raise ValueError("If yint=0 you must also have y,dy=0", yint, y, dy)
+                raise ValueError("If yint=0 you must also have y,dy=0", self.yint, y, dy)
             dydx = ((self.B + self.S))**2
         else:
             if dy==0:
@@ -800,7 +800,7 @@ class CarbonOrderUI:
         if checkbounds:
             if y < 0:
                 if raiseonerror:
-                    raise ValueError("The value of x is out of bounds (x>xint; y<0)", x, xint, y)
+                    raise ValueError("The value of x is out of bounds (x>xint; y<0)", x, self.xint, y)
                 return None 
         return y
 
-- 
2.43.0


From cac8017604d389294269f95d77e2f98198b31a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 018/122] fix: strategies without risk asset are seeded with
 MIN_SEED_AMT, as documented

---
 carbon/helpers/strategym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 6d466ad..8fd9c44 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -134,7 +134,7 @@ class strategy():
     def __post_init__(self):
         # the ==0 is important: do not touch None!
         # (None means: to be filled in later)
-        if self.amt_rsk == 0: self.amt_risk = self.MIN_SEED_AMT
+        if self.amt_rsk == 0: self.amt_rsk = self.MIN_SEED_AMT
         if self.amt_csh == 0: self.amt_csh  = self.MIN_SEED_AMT
         if self.rsk is None: self.rsk = "RSK"
         if self.csh is None: self.csh = "CSH"
-- 
2.43.0


From c5842cbf18ccf8b3359cf3ba60e7504aea2bca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 019/122] fix: strategy refuses marginal price together with
 capacity (check was overridden)

---
 carbon/helpers/strategym.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 8fd9c44..b7c61ad 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -57,12 +57,6 @@ class strategy():
     rescale: bool = True
     rescaled_fctr: float = None
 
-    def __post_init__(self):
-        pm_provided = not self.psell_marginal is None or not self.pbuy_marginal is None
-        yi_provided = not self.y_int_sell is None or not self.y_int_buy is None
-        if pm_provided and yi_provided:
-            raise ValueError("Not both p_marginal and y_int can be provided", self.psell_marginal, self.y_int_sell, self.pbuy_marginal, self.y_int_buy)
-        
     MIN_SEED_AMT = 1e-10
 
     def rescale_strat(self, newspot=100, oldspot=100, force=False):
@@ -132,6 +126,11 @@ class strategy():
         return newobj
 
     def __post_init__(self):
+        pm_provided = not self.psell_marginal is None or not self.pbuy_marginal is None
+        yi_provided = not self.y_int_sell is None or not self.y_int_buy is None
+        if pm_provided and yi_provided:
+            raise ValueError("Not both p_marginal and y_int can be provided", self.psell_marginal, self.y_int_sell, self.pbuy_marginal, self.y_int_buy)
+        
         # the ==0 is important: do not touch None!
         # (None means: to be filled in later)
         if self.amt_rsk == 0: self.amt_rsk = self.MIN_SEED_AMT
-- 
2.43.0


From 1c6277dc78ed657bf77d56530aac516a0fce9836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 020/122] fix: strategy.from_mgw accepts any range width, not
 only those below 1

---
 carbon/helpers/strategym.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index b7c61ad..d669f2f 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -270,7 +270,6 @@ class strategy():
         p_marg -> p_end (we can not have u=1 for y>0); p_marg = (1-u) p_s + u p_e;
         for values MAX_UTIL < u <=1, u is set to MAX_UTIL
         """
-        if w==0: w=0.0001
         if g==0: g=0.0001
         try:
             # this will work on tuple / list of length 2...
@@ -281,9 +280,13 @@ class strategy():
         #print("[from_mgw] u, usell, ubuy", u, usell, ubuy)
     
         try:
-            wsell, wbuy = (cls._validate(ww) for ww in w)
-        except:
-            wsell = wbuy = cls._validate(w)
+            wsell, wbuy = w
+        except TypeError:
+            wsell = wbuy = w
+        if wsell < 0 or wbuy < 0:
+            raise ValueError("Must have w >= 0", w)
+        if wsell==0: wsell=0.0001
+        if wbuy==0: wbuy=0.0001
         #print("[from_mgw] w, wsell, wbuy", w, wsell, wbuy)
     
         
-- 
2.43.0


From 30abd64088c2ad81497bb3c8b9a14d9d6c1e7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 021/122] fix: strategy.drr finds dr and pandas

---
 carbon/helpers/strategym.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index d669f2f..1a2a30f 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -9,6 +9,7 @@ from dataclasses import dataclass as _dataclass
 from math import sqrt as _sqrt
 from copy import copy as _copy
 from math import isnan as _isnan
+import pandas as _pd
 
 @_dataclass
 class strategy():
@@ -459,14 +460,14 @@ class strategy():
         r0k = tuple(rr)[0]
         r0 = rr[r0k]
         if not asdf:
-            result = {k:dr(r, r0, purge) for k,r in rr.items()}
+            result = {k:strategy.dr(r, r0, purge) for k,r in rr.items()}
             if not baseline:
                 return result
             result[r0k] = {k:v for k,v in r0.items() if not k in ["id0", "comment"]}
             return result
         else:
-            result = {k:dr(r, r0, purge=False) for k,r in rr.items()}
-            df = pd.DataFrame.from_records(result).T.fillna("")
+            result = {k:strategy.dr(r, r0, purge=False) for k,r in rr.items()}
+            df = _pd.DataFrame.from_records(result).T.fillna("")
             del df["id0"]
             if not comment: 
                 del df["comment"]
-- 
2.43.0


From 14a9e1003f435b8085c2e07a6b827a79fa6823ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 022/122] fix: ConstantProductCurve.from_pkpp honours its
 constr parameter (uniswap v3 curves are marked uv3)

---
 carbon/tools/cpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 2fd16f4..1dfe458 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -345,7 +345,7 @@ class ConstantProductCurve():
         xa = x0 - sqrt(k/p_max)
         ya = y0 - sqrt(k*p_min)
         constr = constr or "pkpp"
-        return cls(k=k, x=x0, x_act=xa, y_act=ya, pair=pair, cid=cid, fee=fee, descr=descr, constr="pkpp", params=params)
+        return cls(k=k, x=x0, x_act=xa, y_act=ya, pair=pair, cid=cid, fee=fee, descr=descr, constr=constr, params=params)
     
     @classmethod
     def from_univ2(cls, x_tknb=None, y_tknq=None, k=None, pair=None, fee=None, cid=None, descr=None, params=None):
-- 
2.43.0


From a99444151473fb028a2573624ccd07308c7cc2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 023/122] fix: CPCInverter.p_min and p_max are None where the
 curve is unlimited

---
 carbon/tools/cpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 1dfe458..fc0c8ed 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1806,11 +1806,11 @@ class CPCInverter():
     
     @property
     def p_min(self):
-        return 1/self.curve.p_max
+        return 1/self.curve.p_max if not self.curve.p_max is None else None
     
     @property
     def p_max(self):
-        return 1/self.curve.p_min
+        return 1/self.curve.p_min if not self.curve.p_min is None else None
     
     @property
     def y_act(self):
-- 
2.43.0


From d65eb0d49edb138cb273507f86a98041c3a8f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 024/122] fix: curves added to a CPCContainer get its token
 scale

---
 carbon/tools/cpc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index fc0c8ed..048b05e 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -968,6 +968,7 @@ class CPCContainer():
         else:
             pass
             #print("[add] item.cid =", item.cid)
+        item.set_tokenscale(self.tokenscale)
         self.curves_by_cid[item.cid] = item
         self.curveix_by_curve[item] = len(self)
         self.curves += [item]
-- 
2.43.0


From 84606be27b96e835dadde7b6e4d01dc21e5a8e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 025/122] fix: CPCContainer.bypairs accepts blanks in a
 comma-separated list of pairs

---
 carbon/tools/cpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 048b05e..20ff1de 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1344,7 +1344,7 @@ class CPCContainer():
         :returns:   tuple, generator or container object (default)
         """
         if isinstance(pairs, str):
-            pairs = set(pairs.split(","))
+            pairs = self.pairset(pairs)
         if pairs is None:
             result = (c for c in self)
         else:
-- 
2.43.0


From e86ee53a73b69ceed612f8ff995d24ca901d8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 026/122] fix: curve params given as string may contain None,
 True and False (traded curves)

---
 carbon/tools/cpc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 20ff1de..7865aaf 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -17,6 +17,7 @@ import random
 from math import sqrt
 import numpy as np
 import pandas as pd
+import ast
 import json
 from matplotlib import pyplot as plt
 from carbon.tools.params import Params
@@ -222,7 +223,10 @@ class ConstantProductCurve():
         if self.params is None:
             super().__setattr__('params', AttrDict())
         elif isinstance(self.params, str):
-            data = json.loads(self.params.replace("'", '"'))
+            try:
+                data = ast.literal_eval(self.params)
+            except (ValueError, SyntaxError):
+                data = json.loads(self.params.replace("'", '"'))
             super().__setattr__('params', AttrDict(data))
         elif isinstance(self.params, dict):
             super().__setattr__('params', AttrDict(self.params))
-- 
2.43.0


From 48e021b2566db2713105f8e6818835dad24207b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 027/122] fix: missing values of a curve dataframe are read as
 None

---
 carbon/tools/cpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 7865aaf..9222c87 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -939,7 +939,9 @@ class CPCContainer():
         "alternative constructor: creates a container from a dataframe representation"
         if "cid" in df.columns:
             df = df.set_index("cid")
-        return cls.from_dicts(df.reset_index().to_dict("records"), tokenscale=tokenscale)
+        dicts = df.reset_index().to_dict("records")
+        dicts = [{k: None if isinstance(v, float) and v != v else v for k, v in d.items()} for d in dicts]
+        return cls.from_dicts(dicts, tokenscale=tokenscale)
     
     def add(self, item):
         """
-- 
2.43.0


From 090b4dbf95fbc8f3a4113e4e7206b85e93cf1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 028/122] fix: a curve refuses trades that pay out more than it
 holds, whichever leg is given

---
 carbon/tools/cpc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 9222c87..1e71792 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -548,6 +548,13 @@ class ConstantProductCurve():
             newy = self.y + dy
             newx = self.k / newy
         
+        # the bounds apply to both legs of the trade (up to rounding)
+        if not ignorebounds:
+            if self.x_act + newx - self.x < -1e-9 * self.x:
+                raise ValueError(f"trade exceeds x_act (dx={newx-self.x}, x_act={self.x_act} {self.tknx} [{self.cid}: {self.pair}])")
+            if self.y_act + newy - self.y < -1e-9 * self.y:
+                raise ValueError(f"trade exceeds y_act (dy={newy-self.y}, y_act={self.y_act} {self.tkny} [{self.cid}: {self.pair}])")
+
         if verbose:
             if dx is None: dx=newx-self.x
             if dy is None: dy=newy-self.y
-- 
2.43.0


From e38b99be668661f1b0a07af9fdb3d9d79fa1d3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 029/122] fix: symmetric pair counts include pairs quoted in
 one direction only

---
 carbon/tools/cpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 1e71792..4d4eab7 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1080,9 +1080,9 @@ class CPCContainer():
         """converts df into upper triangular matrix by adding the lower triangle"""
         df = df.copy()
         fields = df.index.union(df.columns)
-        df = df.reindex(index=fields, columns=fields)
+        df = df.reindex(index=fields, columns=fields).fillna(0)
         df = df + df.T
-        df = df.fillna(0).astype(int)
+        df = df.astype(int)
         return df
 
     FP_ANY = "any"
-- 
2.43.0


From 61f4ead2c1b6a1b868c12e93361305b8c3faa3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 030/122] fix: CPCContainer.bytknb and bytknq select by base
 and quote token, not the reverse

---
 carbon/tools/cpc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 4d4eab7..e6da22c 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1374,10 +1374,10 @@ class CPCContainer():
         return self.bypairs(ascc=True)
     
     def bytknx(self, tknx, *, asgenerator=None, ascc=None):
-        """returns all curves by quote token tknx (tknq) (as tuple, generator or CC object)"""
+        """returns all curves by base token tknx (tknb) (as tuple, generator or CC object)"""
         result = (c for c in self if c.tknx==tknx)
         return self._convert(result, asgenerator=asgenerator, ascc=ascc)
-    bytknq = bytknx
+    bytknb = bytknx
     
     def bytknxs(self, tknxs=None, *, asgenerator=None, ascc=None):
         """returns all curves by quote token tknx (tknq) (as tuple, generator or CC object)"""
@@ -1391,10 +1391,10 @@ class CPCContainer():
     bytknxs = bytknxs
     
     def bytkny(self, tkny, *, asgenerator=None, ascc=None):
-        """returns all curves by base token tkny (tknb) (as tuple, generator or CC object)"""
+        """returns all curves by quote token tkny (tknq) (as tuple, generator or CC object)"""
         result = (c for c in self if c.tkny==tkny)
         return self._convert(result, asgenerator=asgenerator, ascc=ascc)
-    bytknb = bytkny
+    bytknq = bytkny
 
     def bytknys(self, tknys=None, *, asgenerator=None, ascc=None):
         """returns all curves by quote token tkny (tknb) (as tuple, generator or CC object)"""
-- 
2.43.0


From 2703404dab9f0adc2eb8edd04eae40b307b0c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 031/122] fix: goalseek returns a result object when it hits a
 zero exactly, also at its ends

---
 carbon/tools/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index b171771..843b1f1 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -282,6 +282,9 @@ class OptimizerBase:
         """
         finds the value of `x` where `func(x)` x is zero, using binary search between a,b
         """
+        for x in (a, b):
+            if func(x) == 0:
+                return cls.SimpleResult(result=x, method="findminmax_nr")
         if func(a) * func(b) > 0:
             cls.SimpleResult(
                 result=None, 
@@ -292,7 +295,7 @@ class OptimizerBase:
         while (b - a) > cls.GOALSEEKEPS:
             c = (a + b) / 2
             if func(c) == 0:
-                return c
+                return cls.SimpleResult(result=c, method="findminmax_nr")
             elif func(a) * func(c) < 0:
                 b = c
             else:
-- 
2.43.0


From 2fba181dd78286a2e16551206f0abe86e09c20cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 032/122] fix: margp_optimizer does not report an error if it
 converges in its last iteration

---
 carbon/tools/optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 843b1f1..5f6b04e 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1255,6 +1255,7 @@ class CPCArbOptimizer(OptimizerBase):
             #     print("[margp_optimizer] dtkn_d", dtkn_d)
                 
 
+        errormsg = f"maximum number of iterations reached [{maxiter}]"
         for i in range(maxiter):
 
             if P("progress"):
@@ -1307,11 +1308,12 @@ class CPCArbOptimizer(OptimizerBase):
                     # we break in the first loop, so we restore the initial price estimates
                     # (if we do log10 / 10**p then we get results that are slightly off zero)
                     p = np.array(price_estimates_t, dtype=float)
+                errormsg = None
                 break
         
         NOMR = lambda f: f if not result==self.MO_MINIMAL else None
         
-        if i == maxiter-1:
+        if errormsg is not None:
             return self.MargpOptimizerResult(
                 optimizer=NOMR(self),
                 result =  None,
@@ -1324,7 +1326,7 @@ class CPCArbOptimizer(OptimizerBase):
                 dtokens_t = None,
                 tokens_t = tokens_t,
                 n_iterations = i,
-                errormsg = f"maximum number of iterations reached [{maxiter}]",
+                errormsg = errormsg,
             )
         
         dtokens_d, dtokens_t = dtknfromp_f(p, asdct=True, islog10=False)
-- 
2.43.0


From f73d4f2ccf121c0ade084297358ae512d868bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:17 +0000
Subject: [PATCH 033/122] fix: margp_optimizer reports diverging prices as an
 error result

---
 carbon/tools/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 5f6b04e..c382cc9 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1282,6 +1282,9 @@ class CPCArbOptimizer(OptimizerBase):
                 # https://numpy.org/doc/stable/reference/generated/numpy.linalg.lstsq.html
             p0log10 = [*plog10]
             plog10 += dplog10
+            if not np.all(np.abs(plog10) < 100):
+                errormsg = f"prices diverged [log10(p)={tuple(plog10)}]"
+                break
             criterium = np.linalg.norm(dplog10)
             p = np.exp(plog10 * np.log(10))
             if P("verbose"):
-- 
2.43.0


From c503c897a8088df2fa3742036b86298c870d61ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:17 +0000
Subject: [PATCH 034/122] fix: margp_optimizer reports an error if the net
 flows do not vanish at its prices

---
 carbon/tools/optimizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index c382cc9..651f5c7 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1316,6 +1316,14 @@ class CPCArbOptimizer(OptimizerBase):
         
         NOMR = lambda f: f if not result==self.MO_MINIMAL else None
         
+        if errormsg is None:
+            # if all curves are at the end of their range the iteration stops far from the solution
+            dtokens_d, dtokens_t = dtknfromp_f(p, asdct=True, islog10=False)
+            for t, dtkn in zip(tokens_t, dtokens_t):
+                vol = sum(c.x for c in curves_t if c.tknx==t) + sum(c.y for c in curves_t if c.tkny==t)
+                if not abs(dtkn) <= 10 * eps * vol:
+                    errormsg = f"no solution found [net flow of {t}: {dtkn}]"
+        
         if errormsg is not None:
             return self.MargpOptimizerResult(
                 optimizer=NOMR(self),
@@ -1332,7 +1340,6 @@ class CPCArbOptimizer(OptimizerBase):
                 errormsg = errormsg,
             )
         
-        dtokens_d, dtokens_t = dtknfromp_f(p, asdct=True, islog10=False)
         return self.MargpOptimizerResult(
             optimizer=NOMR(self),
             result =  dtokens_d[targettkn],
-- 
2.43.0


From 121aeb0317e2022bd98c506897beb5d095d2c168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:17 +0000
Subject: [PATCH 035/122] fix: simple_optimizer solves to relative precision
 (small prices), and terminates for large ones

---
 carbon/tools/optimizer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 651f5c7..7b4dadc 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -278,10 +278,14 @@ class OptimizerBase:
     
     GOALSEEKEPS = 1e-6
     @classmethod
-    def goalseek(cls, func, a, b):
+    def goalseek(cls, func, a, b, *, eps=None):
         """
         finds the value of `x` where `func(x)` x is zero, using binary search between a,b
+        
+        :eps:       stop when the interval is smaller than this (default: GOALSEEKEPS)
         """
+        if eps is None:
+            eps = cls.GOALSEEKEPS
         for x in (a, b):
             if func(x) == 0:
                 return cls.SimpleResult(result=x, method="findminmax_nr")
@@ -292,8 +296,10 @@ class OptimizerBase:
                 method="findminmax_nr"
                 )
             raise ValueError("function must have different signs at a,b")
-        while (b - a) > cls.GOALSEEKEPS:
+        while (b - a) > eps:
             c = (a + b) / 2
+            if c in (a, b):
+                break # a, b are adjacent floating point numbers
             if func(c) == 0:
                 return cls.SimpleResult(result=c, method="findminmax_nr")
             elif func(a) * func(c) < 0:
@@ -1001,11 +1007,11 @@ class CPCArbOptimizer(OptimizerBase):
             # we are now running a goalseek == 0 on the token that is NOT the target token
             if targettkn == c0.tknx:
                 func = lambda p: dxdyfromp_sum_f(p)[1]
-                p_optimal = self.goalseek(func, p_min*0.99, p_max*1.01)
+                p_optimal = self.goalseek(func, p_min*0.99, p_max*1.01, eps=p_min*1e-13)
                 opt_result = dxdyfromp_sum_f(float(p_optimal))[0]
             else:
                 func = lambda p: dxdyfromp_sum_f(p)[0]
-                p_optimal = self.goalseek(func, p_min*0.99, p_max*1.01)
+                p_optimal = self.goalseek(func, p_min*0.99, p_max*1.01, eps=p_min*1e-13)
                 opt_result = dxdyfromp_sum_f(float(p_optimal))[1]
             method = "simple-targettkn"
             
-- 
2.43.0


From 3ae2d7f2f616181c4b623aa193932cabd7c1871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 036/122] fix: the convex optimizer constrains all tokens, also
 those not named in the constraints (arb)

---
 carbon/tools/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 7b4dadc..ce063c0 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -762,7 +762,8 @@ class CPCArbOptimizer(OptimizerBase):
         
             
         # self-financing constraints
-        for tkn, tknvalue in sfc.items():
+        for tkn in sorted(set(tt) | sfc.tokens):
+            tknvalue = sfc.data.get(tkn, 0)
             if not isinstance(tknvalue, str):
                 constraints += [
                     cp.sum([dy[i] for i in tt[tkn].y])+cp.sum([dx[i] for i in tt[tkn].x]) == tknvalue*c0.scale(tkn)
-- 
2.43.0


From 9dc2aeafa933ea50f3058e79dfe36433dbcc401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 037/122] fix: simple_optimizer returns an error result if the
 global maximum is not found

---
 carbon/tools/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index ce063c0..1e12274 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -995,11 +995,13 @@ class CPCArbOptimizer(OptimizerBase):
         if not result == self.SO_TARGETTKN:
             p_avg = np.mean([c.p for c in curves_t])
             p_optimal = self.findmax(dxdyfromp_valx_f, p_avg)
-            opt_result = dxdyfromp_valx_f(float(p_optimal))
+            if not p_optimal.is_error and not p_optimal.result > 0:
+                p_optimal = self.SimpleResult(result=None, errormsg=f"no positive price found [{p_optimal}]", method=p_optimal.method)
             if result == self.SO_PMAX:
                 return p_optimal
             elif result != self.SO_GLOBALMAX:
                 raise ValueError(f"unknown result type {result}")
+            opt_result = None if p_optimal.is_error else dxdyfromp_valx_f(float(p_optimal))
             method = "simple-globalmax"
         else:
             p_min = np.min([c.p for c in curves_t])
-- 
2.43.0


From 6721a972bc4fe7a72f2a1e0758d1a526599d1a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 038/122] fix: rounding noise of curves that do not trade is an
 empty trade instruction, not an error

---
 carbon/tools/optimizer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 1e12274..71082f3 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1516,7 +1516,12 @@ class CPCArbOptimizer(OptimizerBase):
         TIEPS = 1e-10
         @classmethod
         def new(cls, curve_or_cid, tkn1, amt1, tkn2, amt2, *, eps=None):
-            """automatically determines which is in and which is out"""
+            """
+            automatically determines which is in and which is out
+
+            :eps:       amounts below this fraction of the curve's virtual holdings are rounding noise; 
+                        if both amounts are noise they need not be of different sign (default: TIEPS)
+            """
             try:
                 cid = curve_or_cid.cid
                 curve = curve_or_cid
@@ -1526,6 +1531,10 @@ class CPCArbOptimizer(OptimizerBase):
             if eps is None:
                 eps = cls.TIEPS
             assert tkn1!=tkn2, f"tkn1 and tkn2 must be different [{tkn1} {tkn2}]"
+            if curve is not None and not amt1*amt2 < 0:
+                x, y = (curve.x, curve.y) if tkn1 == curve.tknx else (curve.y, curve.x)
+                if abs(amt1) <= eps*x and abs(amt2) <= eps*y:
+                    amt1 = amt2 = 0
             if amt1 > 0:
                 newobj = cls(cid=cid, tknin=tkn1, amtin=amt1, tknout=tkn2, amtout=amt2, curve=curve)
             else:
-- 
2.43.0


From 4b8ed09a26b0f211e552f813a2c6ecc203855f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 039/122] fix: trade instructions of convex results accept
 solver noise on curves that do not trade

---
 carbon/tools/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 71082f3..201816e 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -453,8 +453,9 @@ class CPCArbOptimizer(OptimizerBase):
                             :TIF_DFAGRR:        aggregated dataframe
                             :TIF_DF:            alias for :TIF_DFRAW:
             """
+            # eps: the accuracy of the solver
             result = (
-                CPCArbOptimizer.TradeInstruction.new(curve_or_cid=c, tkn1=c.tknx, amt1=dx, tkn2=c.tkny, amt2=dy)
+                CPCArbOptimizer.TradeInstruction.new(curve_or_cid=c, tkn1=c.tknx, amt1=dx, tkn2=c.tkny, amt2=dy, eps=1e-6)
                 for c, dx, dy in zip(self.curves, self.dxvalues, self.dyvalues) if dx!=0 or dy!=0
             )
             return CPCArbOptimizer.TradeInstruction.to_format(result, ti_format)
-- 
2.43.0


From 4afd50a3063254e1f0c64faeae64877251547e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 040/122] fix: strategy.filter_isnan returns numbers that are
 not nan

---
 carbon/helpers/strategym.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 1a2a30f..c162455 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -483,4 +483,5 @@ class strategy():
             if _isnan(val):
                 return ""
         except TypeError:
-            return val
\ No newline at end of file
+            pass
+        return val
\ No newline at end of file
-- 
2.43.0


From a7464870744a755ebd7686d5022ec9ef5ea4c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 041/122] fix: path interpolation keeps the points of segments
 shorter than the sampling period

---
 carbon/helpers/pathinterpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/pathinterpolation.py b/carbon/helpers/pathinterpolation.py
index f884c84..2a8580c 100644
--- a/carbon/helpers/pathinterpolation.py
+++ b/carbon/helpers/pathinterpolation.py
@@ -87,7 +87,7 @@ class PathInterpolation():
         path_td_yrs = path_td/_pd.Timedelta(days=1)/365.25
         if period > path_td:
             print("[interpolate_segment] sample period too large; returning original")
-            return path_segment.iloc[:1]
+            return path_segment
         numsegments = int(round(path_td/period,0))
         period_act = path_td/numsegments
         sample_path_np = cls.gaussian_bridge(path_segment[0], path_segment[1], sig*_sqrt(path_td_yrs), numsegments)
-- 
2.43.0


From 84c77265b61732f627dde3979467c2a79d29f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 042/122] fix: PathGenerator.pathdf uses the column name given
 to the constructor

---
 carbon/helpers/pathgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/pathgenerator.py b/carbon/helpers/pathgenerator.py
index 5575ec6..d60606b 100644
--- a/carbon/helpers/pathgenerator.py
+++ b/carbon/helpers/pathgenerator.py
@@ -125,7 +125,7 @@ class PathGenerator():
         """
         
         if numpaths is None: numpaths = self.DEFAULTS["numpaths"]
-        if colname is None: colname = self.DEFAULTS["colname"]
+        if colname is None: colname = self.colname
         
         paths = [self.path() for _ in range(numpaths)]
         #df0 = pd.DataFrame(data=self.vec2ar([self.times, self.datetimes]), columns=["time", "datetime"])
-- 
2.43.0


From 6bffa990a61878a141c2b2ec6c73007582a14f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 043/122] fix: PathGenerator column names round volatility and
 drift (57% is p057)

---
 carbon/helpers/pathgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/helpers/pathgenerator.py b/carbon/helpers/pathgenerator.py
index d60606b..442f118 100644
--- a/carbon/helpers/pathgenerator.py
+++ b/carbon/helpers/pathgenerator.py
@@ -132,8 +132,8 @@ class PathGenerator():
         df0 = pd.DataFrame(data=self.vec2ar([self.datetimes]), columns=["datetime"])
         cols = [
             colname.format(
-                sig100 = int(self.sig*100),
-                mu100  = int(self.mu*100),   
+                sig100 = int(round(self.sig*100)),
+                mu100  = int(round(self.mu*100)),   
                 ix     = ix
                 ) 
             for ix in range(len(paths))
-- 
2.43.0


From 9d1c93b9cc30764e6ab632ffd0000d46accc3e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 044/122] fix: duplicated arbitrage graph edges keep their
 quote convention and uid

---
 carbon/tools/arbgraphs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 7bab36f..8d0e231 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -498,7 +498,7 @@ class Edge(_DCBase):
         """
         duplicate an edge with all values the same except ix
         """
-        return self.__class__(self.node_in, self.amount_in, self.node_out, self.amount_out, None, self.inverse)
+        return self.__class__(self.node_in, self.amount_in, self.node_out, self.amount_out, None, self.inverse, self.uid)
 
     def reverse(self):
         """
@@ -910,8 +910,7 @@ class ArbGraph(_DCBase):
         """
         nodes = {node.tkn: Node(node.tkn) for node in self.nodes}
         if not consolidate:
-            edges = (Edge(edge.node_in, edge.amount_in, edge.node_out, edge.amount_out, 
-                                        edge.inverse, uid=edge.uid) for edge in self.edges)
+            edges = (edge.duplicate() for edge in self.edges)
         else:
             edges = ( self.filter_edges(nin, nout)
                             for nin in self.nodes for nout in self.nodes if nin != nout)
-- 
2.43.0


From cfcd814dcea6381df957fcbc6c5e5d94c52cff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 045/122] fix: a duplicated arbitrage graph can be used like
 any other graph

---
 carbon/tools/arbgraphs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 8d0e231..fe89c45 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -918,8 +918,7 @@ class ArbGraph(_DCBase):
             edges = ( r for r in edges if not r == 0)    
         
         edges = ( r._replace_nodes(nodes) for r in edges)        
-        edges = tuple(edges)
-        return self.__class__(nodes=nodes.values(), edges=edges)
+        return self.__class__(nodes=list(nodes.values()), edges=list(edges))
 
     def reset_state(self):
         """
-- 
2.43.0


From bc286d821f425515e62bb61503c107384a8735de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 046/122] fix: ArbGraph.transport accepts an Amount

---
 carbon/tools/arbgraphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index fe89c45..e79d18c 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1707,8 +1707,8 @@ class ArbGraph(_DCBase):
 
         # if amount_in is a Amount, ensure the token is correct
         if isinstance(amount_in, Amount):
-            if amount_in.token != node_in.token:
-                raise ValueError(f"amount_in token {amount_in.token} does not match node_in token {node_in.token}")
+            if amount_in.tkn != node_in:
+                raise ValueError(f"amount_in token {amount_in.tkn} does not match node_in token {node_in}")
             amount_in = amount_in.amount
 
         # get the edges
-- 
2.43.0


From 64267c58364c8c46f77a244e980130209f24d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 047/122] fix: a refused arbitrage graph transport records
 nothing

---
 carbon/tools/arbgraphs.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index e79d18c..93ab8e9 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -602,15 +602,15 @@ class Edge(_DCBase):
         amount_out = amount_in * self.amount_out / self.amount_in
         
         if record:
-            self.state.amount_in_remaining -= amount_in
-            if self.state.amount_in_remaining < -EPS:
-                if raiseonerror:
+            if raiseonerror:
+                # check everything before recording anything
+                if self.state.amount_in_remaining - amount_in < -EPS:
                     raise ValueError(f"amount {amount_in} exceeds remaining edge capacity {self.state.amount_in_remaining}")
+                if self.node_in.state.amount - amount_in < -EPS:
+                    raise ValueError(f"amount {amount_in} exceeds node capacity {self.node_in.state.amount}")
+            self.state.amount_in_remaining -= amount_in
             self.node_out.state.amount += amount_out
             self.node_in.state.amount -= amount_in
-            if self.node_in.state.amount < -EPS:
-                if raiseonerror:
-                    raise ValueError(f"amount {amount_in} exceeds node capacity {self.node_in.state.amount}")
         return Amount(amount_out, self.node_out)
 
     def __str__(self):
@@ -1726,6 +1726,10 @@ class ArbGraph(_DCBase):
         amounts_in = [amt_in * routing_factor for amt_in in capacities_in]
         print(f"routing_factor: {routing_factor}; amounts_in: {amounts_in} {amount_in} {capacity_in}")
 
+        # check that the node holds the amount, so that a transport is recorded in full or not at all
+        if record and raiseonerror and node_in.state.amount - amount_in < -EPS:
+            raise ValueError(f"amount {amount_in} exceeds node capacity {node_in.state.amount}")
+
         # transport the amounts through the edges
         amounts_out = []
         for edge, amt_in in zip(edges, amounts_in):
-- 
2.43.0


From ba88203cde206091f9d87b4024d2b315a43f6189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 048/122] fix: ArbGraph.degree can return its matrix

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 93ab8e9..c3a420a 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1398,7 +1398,7 @@ class ArbGraph(_DCBase):
         degree = dict(degree)
         if not as_matrix:
             return degree
-        matrix = np.diag([degree.get(node, 0) for node in G.nodes()])
+        matrix = np.diag([degree.get(node.ix, 0) for node in self.nodes])
         return matrix
     
     def in_degree(self, as_matrix=False):
-- 
2.43.0


From 1b005220542f40beb45c6876a51a13c83ca25d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 049/122] fix: the tabular formats of run_arbitrage_cycles work

---
 carbon/tools/arbgraphs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index c3a420a..57d7d32 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1481,7 +1481,7 @@ class ArbGraph(_DCBase):
             return super().asdict(dct=dct, exclude=exclude, include=include)
         
         def astuple(self, include_cycle=True):
-            return tuple(self.asdict(include_cycle).values())
+            return tuple(self.asdict(include_cycle=include_cycle).values())
         
         def tokens(self):
             return ", ".join(str(t.tkn) for t in self.cycle.data)
@@ -1650,12 +1650,12 @@ class ArbGraph(_DCBase):
         :format:       same as in `run_arbitrage_cycles`
         """
         if format is None:
-            format = self.ACREF_DF
+            format = self.ACRET_DF
 
         arbcycles = rawresults
         if format == self.ACRET_GEN or format == self.ACRET_TUPLE:
             return rawresults
-        arbcycles_dcts = tuple(r.asdict(False) for r in arbcycles)
+        arbcycles_dcts = tuple(r.asdict(include_cycle=False) for r in arbcycles)
         if format == self.ACRET_DICTS:
             return arbcycles_dcts
         df0 = pd.DataFrame.from_dict(arbcycles_dcts)
-- 
2.43.0


From 5eace88380d9f0c169cb5c55b967ecb1930172ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 050/122] fix: Cycle.pairs_s honours the start of the iteration

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 57d7d32..76a1bb9 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -795,7 +795,7 @@ class Cycle(_DCBase):
         """
         runs pairs and returns the results as slashpairs
         """
-        return [f"{p[0].tkn}/{p[1].tkn}" for p in self.pairs()]
+        return [f"{p[0].tkn}/{p[1].tkn}" for p in self.pairs(start_ix=start_ix, start_val=start_val)]
     
     def run_arbitrage_cycle(self, token=None, **params):
         """
-- 
2.43.0


From a11404253000170045de0f1da4af889d29e3d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 051/122] fix: ArbGraph.edgedf attributes the reverse edges to
 their own pair

---
 carbon/tools/arbgraphs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 76a1bb9..860ccec 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1832,7 +1832,8 @@ class ArbGraph(_DCBase):
                 ).reset_index()
             dff = df[df["is_reverse"]==False]
             dft = df[df["is_reverse"]==True]
-            df = pd.concat([dff.reset_index(drop=True), dft[["n"]].rename(columns={"n":"n_rev"}).reset_index(drop=True)], axis=1)
+            df = dff.merge(dft[["pair", "n", "price"]], on="pair", how="outer", suffixes=("", "_rev"))
+            df["price"] = df["price"].fillna(df["price_rev"])
             df = df[["pair", "n", "n_rev", "price"]]
         
             if not resetindex:
-- 
2.43.0


From 394d70bdf6492bd30683a48f48ffdf9965531ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 052/122] fix: filter_edges with bothways lists every edge once

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 860ccec..1c398b9 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1200,7 +1200,7 @@ class ArbGraph(_DCBase):
         if bothways:
             l1 = self.filter_edges(node_in=node_in, node_out=node_out, node=node, bothways=False)
             l2 = self.filter_edges(node_in=node_out, node_out=node_in, node=node, bothways=False)
-            return l1 + l2
+            return l1 + [edge for edge in l2 if not edge in l1]
         if isinstance(node_in, str):
             node_in = self.node_by_tkn(node_in)
         if isinstance(node_out, str):
-- 
2.43.0


From 7d2e4ec9bb33719117d30125f56fdab137af24a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 053/122] fix: run_arbitrage_cycle reports the index of the
 token it started from

---
 carbon/tools/arbgraphs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 1c398b9..3058af2 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1532,9 +1532,11 @@ class ArbGraph(_DCBase):
         current_amount_in = None      # tracks the amount currently being pushed (None: to be initialised)
 
         # try to set the cycle to the token we want to use (if any)
+        start_ix = 0
         if not token is None:
             try:
-                cycle_pairs = cycle.pairs(start_val=self.node_by_tkn(token))
+                start_ix = cycle.data.index(self.node_by_tkn(token))
+                cycle_pairs = cycle.pairs(start_ix=start_ix)
             except:
                 if P("allow_any_token"):
                     cycle_pairs = cycle.pairs()
@@ -1606,7 +1608,7 @@ class ArbGraph(_DCBase):
         
         result = self.RunArbCycleResult(
             cycle = cycle,
-            start_ix = 0,
+            start_ix = start_ix,
             token = e.tkn_out,
             profit = profit_amount,
             amount_in = effective_amount_in,
-- 
2.43.0


From 176c8e1ec5c374429dc06a7671922a4004962798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 054/122] fix: Node.reset_state sets the amount given

---
 carbon/tools/arbgraphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 3058af2..0e3b5a9 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -166,6 +166,7 @@ class Node(_DCBase):
         if amount is None:
             amount = 0
         self._state = self.State(amount=amount)
+        self._state.amount_.reset(amount)
 
     @property
     def tkn_p(self):
-- 
2.43.0


From 8f3d47d89ee96474dee0fb5b826bf9de08283265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 055/122] fix: an arbitrage graph transport over its capacity
 records nothing

---
 carbon/tools/arbgraphs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 0e3b5a9..cf060ea 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1729,9 +1729,12 @@ class ArbGraph(_DCBase):
         amounts_in = [amt_in * routing_factor for amt_in in capacities_in]
         print(f"routing_factor: {routing_factor}; amounts_in: {amounts_in} {amount_in} {capacity_in}")
 
-        # check that the node holds the amount, so that a transport is recorded in full or not at all
-        if record and raiseonerror and node_in.state.amount - amount_in < -EPS:
-            raise ValueError(f"amount {amount_in} exceeds node capacity {node_in.state.amount}")
+        # check capacity and holdings first, so that a transport is recorded in full or not at all
+        if record and raiseonerror:
+            if capacity_in - amount_in < -EPS:
+                raise ValueError(f"amount {amount_in} exceeds remaining capacity {capacity_in}")
+            if node_in.state.amount - amount_in < -EPS:
+                raise ValueError(f"amount {amount_in} exceeds node capacity {node_in.state.amount}")
 
         # transport the amounts through the edges
         amounts_out = []
-- 
2.43.0


From 93a6a74694702c5a6bdaf1cbb2510f7c969d6e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 056/122] fix: Analytics.effective_price finds the default pair
 of the sim

---
 carbon/simulators/sim_analytics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index 37744c9..e327a9a 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -175,7 +175,9 @@ class Analytics:
         if pair is None: 
             if sim is None:
                 raise ValueError("If pair is None then sim must be provided in arguments or class defaults")
-            pair = sim.pair 
+            if sim.carbon_pair is None:
+                raise ValueError(f"The sim provided does not specify a pair [{sim}]")
+            pair = sim.carbon_pair.slashpair
         if bidask == self.BID_BOOK: 
             price_f = sim.amm_buys
             fail_value = self.MAXPRICE
-- 
2.43.0


From 7e0664797e775bd70449e1a00dbd13ddd46ffe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 057/122] fix: Analytics.effective_price accepts the BID and
 ASK constants it documents

---
 carbon/simulators/sim_analytics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index e327a9a..faaaf1c 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -178,10 +178,10 @@ class Analytics:
             if sim.carbon_pair is None:
                 raise ValueError(f"The sim provided does not specify a pair [{sim}]")
             pair = sim.carbon_pair.slashpair
-        if bidask == self.BID_BOOK: 
+        if bidask in (self.BID_BOOK, self.BID): 
             price_f = sim.amm_buys
             fail_value = self.MAXPRICE
-        elif bidask == self.ASK_BOOK: 
+        elif bidask in (self.ASK_BOOK, self.ASK): 
             price_f = sim.amm_sells
             fail_value = 0.
         else:
-- 
2.43.0


From 621f834b4dc469f4afda28a7534c236613e0d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 058/122] fix: Analytics.simulate_trades uses the sim given

---
 carbon/simulators/sim_analytics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index faaaf1c..c9e922b 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -213,9 +213,8 @@ class Analytics:
         """
         if sim is None: sim = self.sim
         if carbon_pair is None:
-            if self.sim is None:
+            if sim is None:
                 raise ValueError("The `sim` object must be provided and have a default carbon pair if `carbon_pair` is not given.")
-            sim = self.sim
             if sim.carbon_pair is None:
                 raise ValueError("The `sim` object must have a default carbon pair if `carbon_pair` is not given.")
             carbon_pair = sim.carbon_pair
-- 
2.43.0


From 61d2d94f31ffb2fec80c4333bb5dbf2099fd89ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 059/122] fix: truncating a pair of series keeps them aligned

---
 carbon/simulators/sim_analytics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index c9e922b..c26cf07 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -139,7 +139,10 @@ class Analytics:
         :s2:                truncated of NaN / None at the end
         :returns:           truncated (s1, s2)
         """
-        s2r = cls.vec(x for x in s2 if not cls.isnonenan(x))
+        s2 = list(s2)
+        while s2 and cls.isnonenan(s2[-1]):
+            s2.pop()
+        s2r = cls.vec(s2)
         s1r = s1[:len(s2r)]
         return s1r, s2r
 
-- 
2.43.0


From bbb6fa300b9077d72aaee23493f51d3356ac635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 060/122] fix: CarbonFloatInt keeps to its significant bits for
 large numbers

---
 carbon/helpers/floatint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/floatint.py b/carbon/helpers/floatint.py
index 287f271..c76fea5 100644
--- a/carbon/helpers/floatint.py
+++ b/carbon/helpers/floatint.py
@@ -47,7 +47,7 @@ class CarbonFloatInt64():
     @staticmethod
     def bindig(num):
         """binary digits for num >0 [_ceil(_log2(rawint+1))]"""
-        return _ceil(_log2(num+1))
+        return num.bit_length()
 
     @classmethod
     def from_int(cls, rawint):
-- 
2.43.0


From 142401c59b2aee7b415ea10a6f2e760071953e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 061/122] fix: CarbonFloatInt refuses numbers beyond its
 maximum

---
 carbon/helpers/floatint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/floatint.py b/carbon/helpers/floatint.py
index c76fea5..602575f 100644
--- a/carbon/helpers/floatint.py
+++ b/carbon/helpers/floatint.py
@@ -63,7 +63,7 @@ class CarbonFloatInt64():
         
         bindig = cls.bindig(rawint)
         exponent = bindig - cls.BITS_SIGNIFICANT
-        assert exponent <= 2**cls.BITS_EXPONENT, f"exponent must be <= {2**cls.BITS_EXPONENT}, is {exponent} [{intval}]"
+        assert exponent < 2**cls.BITS_EXPONENT, f"exponent must be < {2**cls.BITS_EXPONENT}, is {exponent} [{rawint}]"
         if exponent <= 0:
             return cls(rawint, 0)
         return cls(rawint >> exponent, exponent)
-- 
2.43.0


From 85e14f5ea11376f010f078dcad123c929068b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 062/122] fix: EncodedOrder.encode derives the capacity from
 the marginal price

---
 carbon/sdk/carbonsdk.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 65f53a6..adf1bd4 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -291,10 +291,13 @@ class EncodedOrder():
             if p_marg is None:
                 z = y
             else:
-                if p_marg >= p_start_hi:
+                H, L, M = (cls.encodeRate(p) for p in (p_start_hi, p_end_lo, p_marg))
+                if M >= H:
                     z = y
+                elif M > L:
+                    z = int(y) * (H - L) // (M - L)
                 else:
-                    z = y * (p_start_hi - p_end_lo) // (p_marg - p_start_hi)
+                    raise ValueError("p_marg must be above p_end_lo", p_marg, p_end_lo)
         return cls(
             y=int(y), 
             z=int(z), 
-- 
2.43.0


From cdebff377c94f2144723f2f26f2bfe7d1a38d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 063/122] fix: EncodedOrder.encode_yzAB accepts the float
 parameters it documents

---
 carbon/sdk/carbonsdk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index adf1bd4..0e78a95 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -319,8 +319,8 @@ class EncodedOrder():
         return cls(
             y=int(y), 
             z=int(z), 
-            A=cls.encodeFloat(A), 
-            B=cls.encodeFloat(B),
+            A=cls.encodeFloat(int(A*cls.ONE)), 
+            B=cls.encodeFloat(int(B*cls.ONE)),
             token=str(token)
         )
         
-- 
2.43.0


From 962d5fe80b55e66e2e0ced91a4de9ea43964ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 064/122] fix: EncodedStrategy.raw_json does not change the raw
 record

---
 carbon/sdk/carbonsdk.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 0e78a95..47c698b 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -401,12 +401,11 @@ class EncodedStrategy():
     @property
     def raw_json(self):
         """returns the raw field as a json string"""
-        raw = self.raw
+        raw = dict(self.raw)
         raw["id"] = str(raw["id"])
         for dk in ["order0", "order1"]:
-            for k in raw[dk]:
-                raw[dk][k] = str(raw[dk][k])
-        return json.dumps(self.raw, indent=4)
+            raw[dk] = {k: str(v) for k, v in raw[dk].items()}
+        return json.dumps(raw, indent=4)
     
     @property
     def descr(self):
-- 
2.43.0


From 167b929d89c877a6180a9b7c842aaecc0ccf2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 065/122] fix: from_SDK accepts strategies with an empty order

---
 carbon/carbon_order_ui.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 523526a..2c88aff 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -309,11 +309,11 @@ class CarbonOrderUI:
         tknqa = sdkStrategy["quoteToken"]
         tknqo = Tokens.byticker(tknqa, raiseonerror=False, returnnultkn=False)
         tknq = tknqo.T if not tknqo is None else "TKNQ"
-        tknql = cls.bn2int(tknqe["y"]) / cls.bn2int(tknqe["z"])
+        tknql = cls.bn2int(tknqe["y"]) / (cls.bn2int(tknqe["z"]) or 1)
         tknba = sdkStrategy["baseToken"]
         tknbo = Tokens.byticker(tknba, raiseonerror=False, returnnultkn=False)
         tknb = tknbo.T if not tknbo is None else "TKNB"
-        tknbl = cls.bn2int(tknbe["y"]) / cls.bn2int(tknbe["z"])
+        tknbl = cls.bn2int(tknbe["y"]) / (cls.bn2int(tknbe["z"]) or 1)
         
         pair = CarbonPair(tknq=tknq, tknb=tknb)
         # the tkn in the constructor is the one that is being sold
-- 
2.43.0


From 25d1600c045842fb7cdee1dece3509e52a922736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 066/122] fix: yzABS returns integer token amounts

---
 carbon/carbon_order_ui.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 2c88aff..eed0588 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -1194,8 +1194,8 @@ class CarbonOrderUI:
         dec  = self.pair.decimals
         decy = dec[tkny]
         decx = dec[tknx]
-        y_wei = self.y*10**decy
-        z_wei = self.yint*10**decy
+        y_wei = round(self.y*10**decy)
+        z_wei = round(self.yint*10**decy)
         B_ns = self.B * 10 ** ( (decy-decx)/2)
         A_ns = self.S * 10 ** ( (decy-decx)/2)
         yzABS = yzABSdata(y_wei, z_wei, int(A_ns*scale), int(B_ns*scale), scale)
-- 
2.43.0


From dc2c458a2e8f7d21b01328ee5e46f38efa8f9578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 067/122] fix: from_SDK identifies tokens by address, in any
 case

---
 carbon/carbon_order_ui.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index eed0588..381a92b 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -298,20 +298,22 @@ class CarbonOrderUI:
         s = {k:cls.roundsd(float(sdkStrategy[k]), nsd) 
             for k in ['buyPriceLow', 'buyPriceHigh', 'buyBudget', 'sellPriceLow', 'sellPriceHigh', 'sellBudget']}
         sid = cls.bn2int(sdkStrategy["id"])
-        if not {sdkStrategy["baseToken"], sdkStrategy["quoteToken"]} == {sdkStrategy["encoded"]["token0"], sdkStrategy["encoded"]["token1"]}:
+        tknba, tknqa = sdkStrategy["baseToken"].lower(), sdkStrategy["quoteToken"].lower()
+        tkn0a, tkn1a = sdkStrategy["encoded"]["token0"].lower(), sdkStrategy["encoded"]["token1"].lower()
+        if not {tknba, tknqa} == {tkn0a, tkn1a}:
             raise ValueError("tokens do not match encoded tokens", sdkStrategy)
-        if sdkStrategy["baseToken"] == sdkStrategy["encoded"]["token0"]:
+        if tknba == tkn0a:
             tknbe = sdkStrategy["encoded"]["order0"]
             tknqe = sdkStrategy["encoded"]["order1"]
         else:
             tknbe = sdkStrategy["encoded"]["order1"]
             tknqe = sdkStrategy["encoded"]["order0"]
-        tknqa = sdkStrategy["quoteToken"]
         tknqo = Tokens.byticker(tknqa, raiseonerror=False, returnnultkn=False)
+        if tknqo is None: tknqo = Tokens.byaddr(tknqa, raiseonerror=False, returnnultkn=False)
         tknq = tknqo.T if not tknqo is None else "TKNQ"
         tknql = cls.bn2int(tknqe["y"]) / (cls.bn2int(tknqe["z"]) or 1)
-        tknba = sdkStrategy["baseToken"]
         tknbo = Tokens.byticker(tknba, raiseonerror=False, returnnultkn=False)
+        if tknbo is None: tknbo = Tokens.byaddr(tknba, raiseonerror=False, returnnultkn=False)
         tknb = tknbo.T if not tknbo is None else "TKNB"
         tknbl = cls.bn2int(tknbe["y"]) / (cls.bn2int(tknbe["z"]) or 1)
         
-- 
2.43.0


From a2f88ba1ed127a856eb47293b4489e463d187caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 068/122] fix: SDK requests go to the url given to the
 constructor

---
 carbon/sdk/sdkbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index 6818cf3..ee81526 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -99,7 +99,7 @@ class SDKBase:
         if method == self.GET and params:
             raise self.CarbonSDKValueError("Must not provide params for GET request", params, method)
 
-        url = self.join(self.URL, path)
+        url = self.join(self.url, path)
         if self.verbose:
             print(f"[req0] method={method}, url={url}, params={params}")
         if method == self.GET:
-- 
2.43.0


From b4253d160fd553172d2cc0f9f2f441966b5d3688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 069/122] fix: SDK call handles synchronous responses if sync
 is the default

---
 carbon/sdk/sdkbase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index ee81526..a972c46 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -139,6 +139,7 @@ class SDKBase:
         :sync:      whether to call sync or async
         """
         #print("\n\n[call]", ep, params, method, sync)
+        if sync is None: sync = self.syncdefault
         url = self.join(self.callapi0(sync), ep)
         if sync: 
             #print("\n\n[call] calling req", ep, params, method, sync)
-- 
2.43.0


From 44a96b65ba4c9a84a65b97a92a973567e375d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 070/122] fix: SDK call reports wrong arguments instead of an
 unbound variable

---
 carbon/sdk/sdkbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index a972c46..18d16ab 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -146,8 +146,8 @@ class SDKBase:
             retval = self.req(url, params, method)
             #print("\n\n[call] req returned", retval)
             return retval
+        r = self.req(url, params, method)
         try:
-            r = self.req(url, params, method)
             rj = r.json()
         except:
             raise self.APICallError("Error calling API", r)
-- 
2.43.0


From 8af048b94ab800d387013cd3b4fc0646187e803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 071/122] fix: SDK result reports a failed call as APICallError

---
 carbon/sdk/carbonsdk0.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 049a3e9..8dc89a8 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -553,13 +553,14 @@ class CarbonSDK0(SDKBase):
                     :awaiting:      if the result of the API call is still awaiting returns True
                     :unknown:       if reqid is unknown, returns False (or raises UnknownReqIdError)
         """
+        url = self.join("result", str(reqid))
+        r = self.req(url)
         try:
-            url = self.join("result", str(reqid))
-            r = self.req(url)
             rj = r.json()
+            success = rj["success"]
         except:
             raise self.APICallError("Error calling result API", url, r)
-        if rj["success"]:
+        if success:
             return rj["data"]["result"]
         if rj["awaiting"] is True:
             return True
-- 
2.43.0


From 71f4507b9cae3ae43752d31087557f33a3525cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 072/122] fix: SDK pairs uses the tokens of the SDK object

---
 carbon/sdk/carbonsdk0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 8dc89a8..b74419a 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -150,9 +150,9 @@ class CarbonSDK0(SDKBase):
         T = self.Tokens
         r = self.call(n("pairs"), params={}, sync=True)
         pairs_raw = self._checkresult(r)
-        if Tokens is None:
+        if T is None:
             return pairs_raw
-        pairs = [ [Tokens(p[0]), Tokens(p[1])] for p in pairs_raw]
+        pairs = [ [T(p[0]), T(p[1])] for p in pairs_raw]
         if not inclstr:
             return pairs
         pairs_s = ", ".join([f"{p[0].T}/{p[1].T}" for p in pairs])
-- 
2.43.0


From d1a1170b453f8b4c9730c00b4989fcd50db4a7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 073/122] fix: SDK pairs can name pairs of unknown tokens

---
 carbon/sdk/carbonsdk0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index b74419a..345a021 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -155,7 +155,7 @@ class CarbonSDK0(SDKBase):
         pairs = [ [T(p[0]), T(p[1])] for p in pairs_raw]
         if not inclstr:
             return pairs
-        pairs_s = ", ".join([f"{p[0].T}/{p[1].T}" for p in pairs])
+        pairs_s = ", ".join(["/".join(getattr(t, "T", t) for t in p) for p in pairs])
         return pairs, pairs_s
         
     def hasLiquidityByPair(self, sourceTokenAddr=None, targetTokenAddr=None, pairs=None):
-- 
2.43.0


From aa133925f7d25aac32bcbdc0c3846a4af99057d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 074/122] fix: signsubmittx transmits the sign flag

---
 carbon/sdk/carbonsdk0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 345a021..895dc59 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -576,7 +576,7 @@ class CarbonSDK0(SDKBase):
         :sign:      whether to sign the transaction (True=sign)
         :returns:   the transaction receipt
         """
-        r = self.req(n("signsubmittx"), params={"tx": tx, sign: bool(sign)})
+        r = self.req(n("signsubmittx"), params={"tx": tx, "sign": bool(sign)})
         return self._checkresult(r)
     
     ########################################
-- 
2.43.0


From 7436a515616b88b790f60dd5b18498ba64de99a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 075/122] fix: SDK reports responses which are not json

---
 carbon/sdk/carbonsdk0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 895dc59..693e4ca 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -592,7 +592,7 @@ class CarbonSDK0(SDKBase):
         try:
             rj = r.json()
         except:
-            raise RuntimeError(f"ERROR: can't convert to json {r.body}")
+            raise RuntimeError(f"ERROR: can't convert to json {r.text}")
         try:
             return rj["data"]
         except:
-- 
2.43.0


From b659f11e48b9df7f34f096ce7df802c93b4d1d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 076/122] fix: SDK addr returns None if the server cannot be
 reached

---
 carbon/sdk/carbonsdk0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 693e4ca..69b2b48 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -132,7 +132,7 @@ class CarbonSDK0(SDKBase):
         """
         r = self.req(n("addr"))
         rj = r.json()
-        if rj["success"]:
+        if rj.get("success"):
             return rj["data"]
         else:
             return None
-- 
2.43.0


From 83c4688772a8509cee550b40af4e5a04d0f211de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 077/122] fix: SDK calls do not change the overrides of the
 caller

---
 carbon/sdk/carbonsdk0.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 69b2b48..d329166 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -321,7 +321,7 @@ class CarbonSDK0(SDKBase):
         """
         if deadline is None: deadline = self.MAXDEADLINE
         if maxInput is None: maxInput = self.MAXMAXINPUT
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         if tradeActions is None: tradeActions = []
         tradeActions = [self.int2strd(d) for d in tradeActions]
@@ -350,7 +350,7 @@ class CarbonSDK0(SDKBase):
 
         if deadline is None: deadline = self.MAXDEADLINE
         if minReturn is None: minReturn = 1
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         if tradeActions is None: tradeActions = []
         tradeActions = [self.int2strd(d) for d in tradeActions]
@@ -429,7 +429,7 @@ class CarbonSDK0(SDKBase):
         :sync:              whether to call sync or async
         :returns:           unsigned transaction that can be used to create the strategy
         """
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         r = self.call(n("createBuySellStrategy"), params={
                 "baseToken": str(baseToken), 
@@ -505,7 +505,7 @@ class CarbonSDK0(SDKBase):
         :returns:               ??? TODO
         """
         assert isinstance(update, self.StrategyUpdate), "update must be of type StrategyUpdate"     
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         return self.call(n("updateStrategy"), params={
                 "strategyId": str(strategyId), 
@@ -526,7 +526,7 @@ class CarbonSDK0(SDKBase):
         :overrides:         overrides to apply to the transaction
         :returns:           ??? TODO
         """
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         r = self.call(n("deleteStrategy"), params={
                 "strategyId": str(strategyId), 
-- 
2.43.0


From 79566b3df13c145900ce3db1cd8f3f6e0fbfcc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 078/122] fix: mCreateStrategy creates the strategy on the pair
 given

---
 carbon/sdk/carbonsdk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 47c698b..6d9f409 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -695,8 +695,8 @@ class CarbonSDK(CarbonSDK0):
             raise ValueError("sellRangeStart <= buyRangeStart", sellRangeStart, buyRangeStart)
         
         data = self.createBuySellStrategy(
-            baseToken = T.ETH.a, 
-            quoteToken = T.USDC.a, 
+            baseToken = T[pair.tknb].a, 
+            quoteToken = T[pair.tknq].a, 
             buyPriceLow = buyRangeEnd, 
             buyPriceHigh = buyRangeStart, 
             buyBudget = buyAmountTknQ,
-- 
2.43.0


From a93de571391123be875c4b1331b54a3cde11064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 079/122] fix: mPrepareTrade uses the tokens of the SDK object

---
 carbon/sdk/carbonsdk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 6d9f409..fb436d0 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -733,8 +733,8 @@ class CarbonSDK(CarbonSDK0):
         sourceTokenO = T[sourceToken]
         targetTokenO = T[targetToken]
         tradeByTargetAmount = (tkn == targetToken)
-        if not Tokens.containsall({sourceToken, targetToken}):
-            raise ValueError("not all token addresses are availabe", pair, Tokens)
+        if not T.containsall({sourceToken, targetToken}):
+            raise ValueError("not all token addresses are availabe", pair, T)
         data = self.getTradeData(
             sourceToken=sourceTokenO.a, 
             targetToken=targetTokenO.a, 
-- 
2.43.0


From f4619d87e46bd86a2e33f65265d31a18fbf7e437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 080/122] fix: mGetRangeByPair flags the inverted price

---
 carbon/sdk/carbonsdk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index fb436d0..145b394 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -579,7 +579,7 @@ class CarbonSDK(CarbonSDK0):
             AMMsells  = targetTokenO.T,
             bidAsk    = "ask" if pair.has_basetoken(AMMsells) else "bid",
             pair      = pair, 
-            inverted  = pair.has_quotetoken(targetTokenO.T), 
+            inverted  = pair.has_basetoken(targetTokenO.T), 
         )
 
     def mGetRateLiquidityDepthByPair(self, rate, pair, AMMsells):
-- 
2.43.0


From 185bb2febddfd1b6b57a57d212acbbc5fa4e80b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 081/122] fix: TokenContainer objects can be copied

---
 carbon/sdk/sdktoken.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index cfdd06a..a72df77 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -181,6 +181,7 @@ class TokenContainer():
         return self.byticker(token)
     
     def __getattr__(self, token):
+        if token.startswith("_"): raise AttributeError(token)
         return self.byticker(token)
     
     def __len__(self):
-- 
2.43.0


From 262ec5bf368927aef3c541729d4ce04147872d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 082/122] fix: tokens, not their containers, are hashed by
 address

---
 carbon/sdk/sdktoken.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index a72df77..68363bf 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -68,6 +68,9 @@ class SDKToken():
     
     def __iter__(self):
         return iter((self.token, self.address, self.decimals, self.name))
+    
+    def __hash__(self):
+        return int(self.address, 16)
 
 NULTKN = SDKToken("NULTKN", "0x0000000000000000000000000000000000000000") 
 
@@ -193,9 +196,6 @@ class TokenContainer():
     def __repr__(self):
         return f"{self.__class__.__name__}({self._all})"
     
-    def __hash__(self):
-        return int(self.address, 16)
-    
     def __str__(self):
         return str(tuple(self._byticker.keys()))
     
-- 
2.43.0


From 869e5a6b2fc26440f842b2d3641c01d395455fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 083/122] fix: TokenContainer.restore finds the tokens of the
 container

---
 carbon/sdk/sdktoken.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index 68363bf..c071392 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -103,16 +103,16 @@ class TokenContainer():
         """creates a TokenContainer from a csv string"""
         return cls.fromlist([t.split(",") for t in csv.strip().splitlines()], raiseonerror)
     
-    @classmethod
-    def restore(cls, ticker_or_addr_or_tkn, raiseonerror=None):
+    def restore(self, ticker_or_addr_or_tkn, raiseonerror=None):
         """converts a ticker or address to an SDKToken from the TokenContainer (SDKToken not touched)"""
+        if raiseonerror is None: raiseonerror = self.raiseonerror
         if isinstance(ticker_or_addr_or_tkn, SDKToken):
             return ticker_or_addr_or_tkn
         try:
-            tkn = cls.byaddr(ticker_or_addr_or_tkn, raiseonerror=True)
+            tkn = self.byaddr(ticker_or_addr_or_tkn, raiseonerror=True)
         except:
             try:
-                tkn = cls.byticker(ticker_or_addr_or_tkn, raiseonerror=True)
+                tkn = self.byticker(ticker_or_addr_or_tkn, raiseonerror=True)
             except:
                 if raiseonerror:
                     raise ValueError(f"ticker or address {ticker_or_addr_or_tkn} not found in container")
-- 
2.43.0


From 29268e98664beba5b0946ce2be090e8fc358e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 084/122] fix: TokenContainer detects all duplicates

---
 carbon/sdk/sdktoken.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index c071392..38a96f2 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -87,10 +87,11 @@ class TokenContainer():
     def __init__(self, tokens, raiseonerror=None):
         if raiseonerror is None: raiseonerror = True
         self.raiseonerror = raiseonerror
+        tokens = tuple(tokens)
         self._byticker = {t.token: t for t in tokens}
         self._byaddr   = {t.address: t for t in tokens}
         self._tickers  = set(self._byticker.keys())
-        if not len(self._tickers) == len(self._byaddr):
+        if not len(self._tickers) == len(self._byaddr) == len({(t.token, t.address) for t in tokens}):
             raise ValueError(f"{len(self._tickers) - len(self._byaddr)} duplicate token tickers found", self._tickers, self._byaddr)
 
     @classmethod
-- 
2.43.0


From a5a0e1f764716985a9ea099fa04dc49fbb2fe24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 085/122] fix: SDKToken converts to the nearest wei, by default
 with 18 decimals

---
 carbon/sdk/sdktoken.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index 38a96f2..c6ffff1 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -52,11 +52,11 @@ class SDKToken():
 
     def w2t(self, wei):
         """converts wei to token"""
-        return wei / 10**self.decimals
+        return wei / 10**(18 if self.decimals is None else self.decimals)
     
     def t2w(self, tokenmt):
         """converts tokenmt to wei"""
-        return int(tokenmt * 10**self.decimals)
+        return round(tokenmt * 10**(18 if self.decimals is None else self.decimals))
     
     @property
     def isnul(self):
-- 
2.43.0


From 22a9d7324be7f08602f41da8db3bd4d42de1d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 086/122] fix: SDK server gives every asynchronous request its
 own reqid

---
 resources/sdk/server/sdkserver.mjs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resources/sdk/server/sdkserver.mjs b/resources/sdk/server/sdkserver.mjs
index cd97363..1de6019 100644
--- a/resources/sdk/server/sdkserver.mjs
+++ b/resources/sdk/server/sdkserver.mjs
@@ -38,6 +38,7 @@ app.get('/', (req, res) => {
 //////////////////////////////
 // asynchronous results storage
 var resultsas = {}
+var lastreqid = 0
 
 //////////////////////////////
 // route /api/scall [synchronous API]
@@ -83,7 +84,8 @@ app.post('/api/ascall/:func', async (req, res) => {
   }
   const func = req.params.func
   const body = req.body
-  const reqid = Date.now()
+  const reqid = Math.max(Date.now(), lastreqid+1)
+  lastreqid = reqid
   var retval, result
 
   console.log(`[api/ascall/${func}:${reqid}] starting async dispatch`)
-- 
2.43.0


From 6b38c176e72ccee8740186c9c0e9a545119996ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 087/122] fix: SDK server survives failing ERC20 calls

---
 resources/sdk/server/sdkserver.mjs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resources/sdk/server/sdkserver.mjs b/resources/sdk/server/sdkserver.mjs
index 1de6019..d02058c 100644
--- a/resources/sdk/server/sdkserver.mjs
+++ b/resources/sdk/server/sdkserver.mjs
@@ -227,11 +227,12 @@ app.post('/api/erc20/:func', async (req, res) => {
           break;
       }
     }
-  
+    result = await Promise.all(result)
   } catch (e) {
     res.send({success: false, error: e.message})
+    return;
   }
-  res.send({success: true, data: await Promise.all(result)})
+  res.send({success: true, data: result})
 })
 
 
-- 
2.43.0


From 03a463f445305f2dede4e1aacccc69f828cb0426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 088/122] fix: SDK server awaits lists of asynchronous results

---
 resources/sdk/server/sdkserver.mjs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resources/sdk/server/sdkserver.mjs b/resources/sdk/server/sdkserver.mjs
index d02058c..a009335 100644
--- a/resources/sdk/server/sdkserver.mjs
+++ b/resources/sdk/server/sdkserver.mjs
@@ -98,7 +98,11 @@ app.post('/api/ascall/:func', async (req, res) => {
   }
   res.send(retval)
   try {
-    result = await result
+    if (Array.isArray(result)) {
+      result = await Promise.all(result)
+    } else {
+      result = await result
+    }
     resultsas[reqid] = {reqid: reqid, result: result}
     if (success){
       console.log(`[api/ascall/${func}:${reqid}] result=${result.result}`)  
-- 
2.43.0


From 3cc382039f504a6b204519f6677560d7799a6773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 089/122] fix: SDK server reports the reason of a failed
 dispatch

---
 resources/sdk/server/sdkserver.mjs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/sdk/server/sdkserver.mjs b/resources/sdk/server/sdkserver.mjs
index a009335..9028ce8 100644
--- a/resources/sdk/server/sdkserver.mjs
+++ b/resources/sdk/server/sdkserver.mjs
@@ -55,7 +55,7 @@ app.post('/api/scall/:func', async (req, res) => {
   console.log(`[api/scall/${func}] starting sync dispatch`)
   var [success, result] = dispatch(func, body)
   if (success == false) {
-    retval = {success: false, error: `error calling dispatch with ${func} [${result}]`}
+    retval = {success: false, error: `error calling dispatch with ${func} [${result.error}]`}
   } else {
     try {
       if (Array.isArray(result)) {
@@ -91,7 +91,7 @@ app.post('/api/ascall/:func', async (req, res) => {
   console.log(`[api/ascall/${func}:${reqid}] starting async dispatch`)
   var [success, result] = dispatch(func, body)
   if (success == false) {
-    retval = {success: false, error: `error calling dispatch with ${func} [${result}]`}
+    retval = {success: false, error: `error calling dispatch with ${func} [${result.error}]`}
   } else {
     retval = {success: true, reqid: reqid}
     resultsas[reqid] = false
-- 
2.43.0


From fceb8469c5e030a28cc5f9f06a38e86909d24c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 090/122] fix: SDK server starts without a wallet

---
 resources/sdk/server/sdkserver_dispatch.mjs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resources/sdk/server/sdkserver_dispatch.mjs b/resources/sdk/server/sdkserver_dispatch.mjs
index ddd465c..943313e 100644
--- a/resources/sdk/server/sdkserver_dispatch.mjs
+++ b/resources/sdk/server/sdkserver_dispatch.mjs
@@ -48,10 +48,12 @@ export async function initialize(){
         console.log("run `source /Volumes/Private/bin/sdkserver` in the terminal before launching the server")
     }
     provider = sdk._api._reader._contracts._provider
-    if (TENDERLY){
-        signer = provider.getUncheckedSigner(wallet.address);
-    } else {
-        signer = wallet.connect(provider)
+    if (typeof wallet !== "undefined"){
+        if (TENDERLY){
+            signer = provider.getUncheckedSigner(wallet.address);
+        } else {
+            signer = wallet.connect(provider)
+        }
     }
     console.log("----------------------------------------------------------------------")
     console.log("[initialize] calling startDataSync")
-- 
2.43.0


From 1330119ed32ee0c3f7708c2d2044eed094f40a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 091/122] fix: SDK server survives ERC20 calls failing on
 several tokens

---
 resources/sdk/server/sdkserver.mjs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resources/sdk/server/sdkserver.mjs b/resources/sdk/server/sdkserver.mjs
index 9028ce8..42c3dee 100644
--- a/resources/sdk/server/sdkserver.mjs
+++ b/resources/sdk/server/sdkserver.mjs
@@ -233,6 +233,7 @@ app.post('/api/erc20/:func', async (req, res) => {
     }
     result = await Promise.all(result)
   } catch (e) {
+    Promise.allSettled(result) // the calls already made may fail as well
     res.send({success: false, error: e.message})
     return;
   }
-- 
2.43.0


From 09e70fb698475eae0747eb970ca6f293f829392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 092/122] fix: Univ3Calculator scales reserves by the decimals
 of both tokens

---
 carbon/tools/univ3calc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/carbon/tools/univ3calc.py b/carbon/tools/univ3calc.py
index 94d7164..fe2ba30 100644
--- a/carbon/tools/univ3calc.py
+++ b/carbon/tools/univ3calc.py
@@ -186,8 +186,7 @@ class Univ3Calculator():
         _, pb = self.papb
         sqrtPb = sqrt(pb)
         sqrtP = sqrt(self.p)
-        tkn0reserve = self.liquidity * (sqrtPb - sqrtP) / (sqrtP * sqrtPb)
-        tkn0reserve *= self.decf
+        tkn0reserve = self.L * (sqrtPb - sqrtP) / (sqrtP * sqrtPb)
         if not incltoken:
             return tkn0reserve
         return (tkn0reserve, self.tkn0)
@@ -197,8 +196,7 @@ class Univ3Calculator():
         pa, _ = self.papb
         sqrtPa = sqrt(pa)
         sqrtP = sqrt(self.p)
-        tkn1reserve = self.liquidity * (sqrtP - sqrtPa)
-        tkn1reserve *= self.decf
+        tkn1reserve = self.L * (sqrtP - sqrtPa)
         if not incltoken:
             return tkn1reserve
         return (tkn1reserve, self.tkn1)
-- 
2.43.0


From abc3910e2c01502208fddbdc192e012760b06ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 093/122] fix: Univ3Calculator recognises the address of each
 token

---
 carbon/tools/univ3calc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/carbon/tools/univ3calc.py b/carbon/tools/univ3calc.py
index fe2ba30..c5463cf 100644
--- a/carbon/tools/univ3calc.py
+++ b/carbon/tools/univ3calc.py
@@ -57,11 +57,8 @@ class Univ3Calculator():
     ADDRR = {v[0]:k for k,v in ADDRDEC.items()}
     
     def __post_init__(self, tkn0decv=None, tkn1decv=None):
-        try:
-            super().__setattr__('tkn0', self.ADDRR[self.tkn0])
-            super().__setattr__('tkn1', self.ADDRR[self.tkn1])
-        except Exception as e:
-            pass
+        super().__setattr__('tkn0', self.ADDRR.get(self.tkn0, self.tkn0))
+        super().__setattr__('tkn1', self.ADDRR.get(self.tkn1, self.tkn1))
 
         if tkn0decv is None:
             super().__setattr__('_tkn0dec', self.ADDRDEC[self.tkn0][1]) 
-- 
2.43.0


From 7c494dfc04b83611011dcf46d3d9e507c2073b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 094/122] fix: operations between SharedVars do not share state

---
 carbon/helpers/sharedvar.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/carbon/helpers/sharedvar.py b/carbon/helpers/sharedvar.py
index 5d13848..83e39f8 100644
--- a/carbon/helpers/sharedvar.py
+++ b/carbon/helpers/sharedvar.py
@@ -32,6 +32,15 @@ class SharedVar:
     
     def __init__(self, value, oid=None):
         self._value = value
+
+    @property
+    def _value(self):
+        return self._number
+
+    @_value.setter
+    def _value(self, value):
+        # operations between shared variables yield shared variables, whose state must not be shared here
+        self._number = value.value if isinstance(value, SharedVar) else value
     
     @property
     def id(self):
-- 
2.43.0


From 1e3f1556b749a62cf9060378a852e36e6c8b5b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 095/122] fix: SharedVars can be rounded to integers

---
 carbon/helpers/sharedvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/sharedvar.py b/carbon/helpers/sharedvar.py
index 83e39f8..648f0ac 100644
--- a/carbon/helpers/sharedvar.py
+++ b/carbon/helpers/sharedvar.py
@@ -94,7 +94,7 @@ class SharedVar:
     def __abs__(self):
         return self._wrap(abs(self._value))
 
-    def __round__(self, n):
+    def __round__(self, n=None):
         return self._wrap(round(self._value,n))
 
     def __floor__(self):
-- 
2.43.0


From 5437c04b4672e660b9582826131f8e399c58afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 096/122] fix: a zero SharedVar is false

---
 carbon/helpers/sharedvar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carbon/helpers/sharedvar.py b/carbon/helpers/sharedvar.py
index 648f0ac..f106208 100644
--- a/carbon/helpers/sharedvar.py
+++ b/carbon/helpers/sharedvar.py
@@ -80,6 +80,9 @@ class SharedVar:
     def __gt__(self, other):
         return self._value > other
 
+    def __bool__(self):
+        return bool(self._value)
+
     # unitary operations (return values, not the object)
     def _wrap(self, val):
         """result wrapper"""
-- 
2.43.0


From e3b1c85c140a6edc91b161a3a4fa67647cc8ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 097/122] fix: Params.set_default keeps the defaults of the
 first call

---
 carbon/tools/params.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/params.py b/carbon/tools/params.py
index 330e392..6b22277 100644
--- a/carbon/tools/params.py
+++ b/carbon/tools/params.py
@@ -97,9 +97,8 @@ class Params():
         """
         if self._defaults is None:
             self._defaults = dict()
-        else:
-            for k, v in kwargs.items():
-                self._defaults[k] = v
+        for k, v in kwargs.items():
+            self._defaults[k] = v
         return self
     
     @property
-- 
2.43.0


From 816ad9c034356fe4f0c115b3e6d06f6bfd7b28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 098/122] fix: Params.construct replicates the defaults of a
 Params object

---
 carbon/tools/params.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/tools/params.py b/carbon/tools/params.py
index 6b22277..495dd52 100644
--- a/carbon/tools/params.py
+++ b/carbon/tools/params.py
@@ -61,6 +61,8 @@ class Params():
             result = cls(**dct._params)
             if not dct._defaults is None and not defaults is None:
                 raise ValueError("Must not provide default in both constructor and dct", dct, defaults)
+            if defaults is None:
+                defaults = dct._defaults
         else:
             result = cls(**dct)
 
-- 
2.43.0


From c51501ab1d993577c2b1e1e88cc133d117263755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 099/122] fix: fsave compresses binary data

---
 carbon/helpers/fls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/fls.py b/carbon/helpers/fls.py
index 9ded010..ac3ca50 100644
--- a/carbon/helpers/fls.py
+++ b/carbon/helpers/fls.py
@@ -62,7 +62,7 @@ def fsave(data, fn, path=None, binary=False, json=False, yaml=False, wrapper=Non
         data = wrapper.format(data)
     
     if compressed:
-        data = _gzip.compress(data.encode())
+        data = _gzip.compress(data if isinstance(data, bytes) else data.encode())
 
     with open (ffn, ftype) as f:
         f.write(data)
-- 
2.43.0


From 597f1c966b94725dada9308bfc8a2530ea4c14c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 100/122] fix: require_version returns True if the requirements
 are met

---
 carbon/helpers/version.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/helpers/version.py b/carbon/helpers/version.py
index 01e0583..c1df9e9 100644
--- a/carbon/helpers/version.py
+++ b/carbon/helpers/version.py
@@ -36,6 +36,7 @@ def require_version(required, actual=None, raiseonfail=True):
         return result
     if not result:
         raise VersionRequirementNotMetError(f"Version requirements not met (required = {rl}, actual = {al})", required, actual)
+    return result
 
 def _require_version(rl, al):
     """
-- 
2.43.0


From 1ab21b08984eefdd016bcf81621b2c72f67d5d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 101/122] fix: iseq compares all arguments

---
 carbon/helpers/stdimports.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/carbon/helpers/stdimports.py b/carbon/helpers/stdimports.py
index 1eb8768..64d8b06 100644
--- a/carbon/helpers/stdimports.py
+++ b/carbon/helpers/stdimports.py
@@ -36,13 +36,13 @@ def iseq(arg0, *args, eps=1e-6):
         # numeric testing
         if arg0 == 0:
             for arg in args:
-                if abs(arg) > eps: 
+                if not abs(arg) <= eps: 
                     return False
-                return True
+            return True
         for arg in args:
-            if abs(arg/arg0-1) > eps:
+            if not abs(arg/arg0-1) <= eps:
                 return False
-            return True
+        return True
     else:
         for arg in args:
             if not arg == arg0:
-- 
2.43.0


From 2ebe0caf627cc1e8237e91f453143c69c7c6508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 102/122] fix: StartConditions.datetime ends at end_dt

---
 carbon/helpers/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/simulation.py b/carbon/helpers/simulation.py
index 2e6053b..7dab448 100644
--- a/carbon/helpers/simulation.py
+++ b/carbon/helpers/simulation.py
@@ -309,7 +309,7 @@ class StartConditions():
     @property
     def datetime(self):
         dt = self.time_step
-        return [self.start_dt+i*dt for i in range(self.num_points+1)]
+        return [self.start_dt+i*dt for i in range(self.num_points)]
     
     @property
     def carbon_order_weights(self):
-- 
2.43.0


From edf114f32993694a885387800c0a7569aa647782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 103/122] fix: bindig is exact for large numbers

---
 carbon/helpers/soltest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/soltest.py b/carbon/helpers/soltest.py
index e14c9e5..543aab4 100644
--- a/carbon/helpers/soltest.py
+++ b/carbon/helpers/soltest.py
@@ -46,7 +46,7 @@ class SolTestBase():
     @staticmethod
     def bindig(num):
         """binary digits for num >0 [_ceil(_log2(num+1))]"""
-        return _ceil(_log2(num+1))
+        return int(num).bit_length()
     
     LVL_LOG     = 0
     LVL_WARN    = 1
-- 
2.43.0


From 85cfe406ae5f6a92f8b28eed911da8ff08703f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 104/122] fix: CryptoCompare reports the status of failed
 queries

---
 carbon/helpers/cryptocompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 51467b2..09a2364 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -125,7 +125,7 @@ class CryptoCompare():
         
         if not r:
             if self.raiseonerror:
-                raise RuntimeError(f"API query not successfull (status={r.status})", r)
+                raise RuntimeError(f"API query not successfull (status={r.status_code})", r)
             else:
                 return None
         return r
-- 
2.43.0


From cc2bbbe01e00b855e525c6cdd64195df949681fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 105/122] fix: CryptoCompare.query_freqlypair can return raw
 data

---
 carbon/helpers/cryptocompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 09a2364..4be154a 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -287,7 +287,7 @@ class CryptoCompare():
             else:
                 return None
         if not aspandas:
-            return r_json().get("Data")
+            return r_json.get("Data")
         try:   
             # print("[query_freqlypair]", endpoint, params, r)
             # print("[query_freqlypair] r", r_json())
-- 
2.43.0


From 94f95475698392ccebe51d60f4d7cf3d3f90edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 106/122] fix: CryptoCompare cache methods honour readonfail
 and updateonfail

---
 carbon/helpers/cryptocompare.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 4be154a..501c64b 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -176,7 +176,9 @@ class CryptoCompare():
         """cached access to query_allexchanges"""
         return self._cache_xxx(
             item="query_allexchanges", 
-            updatemethod=self.query_allexchanges
+            updatemethod=self.query_allexchanges,
+            readonfail=readonfail,
+            updateonfail=updateonfail,
         )
     
     def query_ratelimit(self):
@@ -207,7 +209,9 @@ class CryptoCompare():
         """cached access to query_coinlist"""
         return self._cache_xxx(
             item="query_coinlist", 
-            updatemethod=self.query_coinlist
+            updatemethod=self.query_coinlist,
+            readonfail=readonfail,
+            updateonfail=updateonfail,
         )
         
     def query_indexlist(self):
@@ -226,7 +230,9 @@ class CryptoCompare():
         """cached access to query_indexlist"""
         return self._cache_xxx(
             item="query_indexlist", 
-            updatemethod=self.query_indexlist
+            updatemethod=self.query_indexlist,
+            readonfail=readonfail,
+            updateonfail=updateonfail,
         )
     
     @staticmethod
-- 
2.43.0


From a28c3c317fe3e7da126e6ed22c169d2b416a4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 107/122] fix: CryptoCompare reads items not in the cache also
 if errors are not raised

---
 carbon/helpers/cryptocompare.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 501c64b..9e0ff91 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -156,7 +156,10 @@ class CryptoCompare():
         if updateonfail:
             readonfail = True
         try:
-            return self.cache(item)
+            data = self.cache(item)
+            if data is None:
+                raise KeyError("Not in cache", item)
+            return data
         except:
             print(f"[_cache_xxx] cache miss for item {item}")
             if readonfail:
-- 
2.43.0


From 3118beb1e68822cf57061e0d7c348ee70ba03fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 108/122] fix: CryptoCompare.aggr_query passes its arguments to
 the query

---
 carbon/helpers/cryptocompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 9e0ff91..0708f6b 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -441,7 +441,7 @@ class CryptoCompare():
             
         print("[aggr_query] Querying for raw table", len(pairs))
         raw_tables = {
-            (fsym, tsym): self.query_freqlypair(freq, fsym=fsym, tsym=tsym)
+            (fsym, tsym): self.query_freqlypair(freq, fsym=fsym, tsym=tsym, **kwargs)
             for fsym, tsym in pairs
         }
         df_raw = _pd.concat(raw_tables, axis=1)
-- 
2.43.0


From ee4363f76990f8aa385af7ce856779b2f3887ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 109/122] fix: CryptoCompare accepts the datapath it documents

---
 carbon/helpers/cryptocompare.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 0708f6b..a3dcad9 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -35,7 +35,9 @@ class CryptoCompare():
     DEFAULT_TSYM = "usd"
     DEFAULT_LIMIT = 2000
     
-    def __init__(self, apikeyname=None, apikey=None, raiseonerror=None):
+    def __init__(self, apikeyname=None, apikey=None, raiseonerror=None, datapath=None):
+        if not datapath is None:
+            self.DATAPATH = datapath
         if raiseonerror is None:
             raiseonerror = self.RAISEONERROR
         self.raiseonerror = raiseonerror  
-- 
2.43.0


From a1987c53e05b78ed947539a9f0af4819fa50858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 110/122] fix: CryptoCompare converts the timestamp strings it
 accepts

---
 carbon/helpers/cryptocompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index a3dcad9..ebdc290 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -287,7 +287,7 @@ class CryptoCompare():
                 "tsym":     tsym if not tsym is None else self.DEFAULT_TSYM,
                 "e":        e,
                 "limit":    limit if not limit is False else self.DEFAULT_LIMIT,
-                "toTs":     toTs,
+                "toTs":     self.ts_tocc(toTs) if not toTs is None and not isinstance(toTs, (int, float)) else toTs,
         }
         r = self.query(endpoint=endpoint, params=params)
         if r is None: return r
-- 
2.43.0


From 623e3889219e6bf89e6fc6b27f250c4aa6153609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 111/122] fix: PcSliderManager keeps its ranges

---
 carbon/helpers/widgets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/widgets.py b/carbon/helpers/widgets.py
index 93612c6..6841fc0 100644
--- a/carbon/helpers/widgets.py
+++ b/carbon/helpers/widgets.py
@@ -191,7 +191,7 @@ class PcSliderManager():
             except:
                 self.range = (range,)*len(self.choice_ids)
         else:
-            self.range = ( (-1, 1) if pmv else (0,1) for pmv in self.pm)
+            self.range = tuple( (-1, 1) if pmv else (0,1) for pmv in self.pm)
 
         self._sliders = tuple(
             _ipw.FloatSlider(
-- 
2.43.0


From b8aded0b919ee10ce95bee598db3c022ca269c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 112/122] fix: DropdownManager accepts the default option as it
 was given

---
 carbon/helpers/widgets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/widgets.py b/carbon/helpers/widgets.py
index 6841fc0..21a764b 100644
--- a/carbon/helpers/widgets.py
+++ b/carbon/helpers/widgets.py
@@ -297,7 +297,7 @@ class DropdownManager():
 
         if not defaultval is None:
             self.defaultix = None
-            self.defaultval = defaultval
+            self.defaultval = str(defaultval)
             self._dropdown = _ipw.Dropdown(
                 options=[(l,o) for l,o in zip(self.labels, self.options)],
                 value=self.defaultval,
-- 
2.43.0


From aae660dbb1ce7339b284a0208a9acc8b4487a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 113/122] fix: DropdownManager checks the default index

---
 carbon/helpers/widgets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/widgets.py b/carbon/helpers/widgets.py
index 21a764b..d65ee9a 100644
--- a/carbon/helpers/widgets.py
+++ b/carbon/helpers/widgets.py
@@ -307,7 +307,7 @@ class DropdownManager():
         else:
             if defaultix is None:
                 defaultix = 0
-            if not defaultix >=0 and defaultix < len(self.options):
+            if not (defaultix >=0 and defaultix < len(self.options)):
                 raise ValueError(f"must have 0 <= defaultix [{defaultix}] < len(options) [{len(self.options)}]")
             self.defaultix = defaultix
             self.defaultval = None
-- 
2.43.0


From d3f75a445eb7aaa7b4c39349aa1c0e9352ab37cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 114/122] fix: PcSliderManager accepts a single negative value
 for pm sliders

---
 carbon/helpers/widgets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/helpers/widgets.py b/carbon/helpers/widgets.py
index d65ee9a..79f3ab2 100644
--- a/carbon/helpers/widgets.py
+++ b/carbon/helpers/widgets.py
@@ -154,10 +154,10 @@ class PcSliderManager():
             values = (0.,)*len(self.choice_ids)
         else:
             try:
-                if values >= 0 and values <= 1:
+                if values >= (-1 if pm is True else 0) and values <= 1:
                     values = (float(values),)*len(self.choice_ids)
                 else:
-                    raise ValueError("Value must be between 0..1", values)
+                    raise ValueError("Value must be between 0..1 [-1..1 for pm sliders]", values)
             except TypeError:
                 if len(values) == len(self.choice_ids):
                     values = tuple(float(v) for v in values)
-- 
2.43.0


From 716341a1879676c714d22516fd669d94a6f5acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 115/122] fix: FastRouter judges a shortfall by the liquidity
 there is, not by integer rounding of the fills

---
 carbon/routers/fast_router.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/carbon/routers/fast_router.py b/carbon/routers/fast_router.py
index a8330c1..595cd61 100644
--- a/carbon/routers/fast_router.py
+++ b/carbon/routers/fast_router.py
@@ -204,10 +204,13 @@ class FastRouter(BaseRouter):
                     break
 
         # the request must be filled completely unless partial fills are allowed
-        x_filled = sum(action.input for action in actions)
         if check_sufficient_liquidity and not support_partial:
+            x_available = sum(
+                self.orders[n].y if is_by_target else self.amt_by_src(dx=self.orders[n].y, subject=n)
+                for n in self.indexes if self.orders[n].y > 0
+            )
             assert (
-                not actions or x_requested - x_filled <= x_requested * Decimal("1e-12")
+                x_requested - x_available <= x_requested * Decimal("1e-12")
             ), "Insufficient liquidity across all user positions to support this trade."
 
         # Format the output
-- 
2.43.0


From 9984425aa6e123264f048e3963582fe8c0d851a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:00 +0000
Subject: [PATCH 116/122] fix: CarbonOrderUI.from_prices reads its prices the
 same whatever the case of the token

---
 carbon/carbon_order_ui.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 381a92b..1026fb0 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -181,6 +181,7 @@ class CarbonOrderUI:
         be confusing in reverse quotation, so we correct by exchanging pa, pb if pb < pa
         """
         pair = CarbonPair(pair)
+        tkn = tkn.upper()
         if yint<0:
             raise ValueError(f"yint must be non-negative (yint={yint})", pair, tkn, pa, pb, yint, y)
         if y>yint:
-- 
2.43.0


From c1d63ea2e32d77f64bbeeb221e3a0e480b6c44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:33 +0000
Subject: [PATCH 117/122] fix: Formulas: use the default namespace that was
 given

---
 resources/whitepaper/formulalib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/whitepaper/formulalib.py b/resources/whitepaper/formulalib.py
index 291f132..7cd874d 100644
--- a/resources/whitepaper/formulalib.py
+++ b/resources/whitepaper/formulalib.py
@@ -58,7 +58,7 @@ class Formulas():
     def __init__(s, raiseonerror=True, defaultns=None, version=None, date=None):
         s._fdict = dict()
         s.raiseonerror = raiseonerror
-        s.defaultns = None
+        s.defaultns = defaultns
         s.version = version
         s.date = date
     
-- 
2.43.0


From eac506df64f6d5b7d589956913ab425bd4e52258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:33 +0000
Subject: [PATCH 118/122] fix: Formulas.add: aliases of an item in a namespace
 raised KeyError

---
 resources/whitepaper/formulalib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/whitepaper/formulalib.py b/resources/whitepaper/formulalib.py
index 7cd874d..47c7ac3 100644
--- a/resources/whitepaper/formulalib.py
+++ b/resources/whitepaper/formulalib.py
@@ -102,7 +102,7 @@ class Formulas():
             # NOTE: _itemnt = _namedtuple("itemnt", "item, title, comment, mainkey, isvariable, tags")
         if not aliases is None:
             for alias in aliases:
-                s.alias(alias, key, ns)
+                s._fdict[f"{ns}.{alias}" if ns else alias] = s._fdict[key]
         return item
 
     def addvar(s, key, item, title=None, comment=None, tagstr=None, ns=None):
-- 
2.43.0


From 111ba22ac7d0a96e843955188f9c0097776571c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:33 +0000
Subject: [PATCH 119/122] fix: XEq: dividing an equation by an extended
 equation was inverted

---
 resources/whitepaper/sympyx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/whitepaper/sympyx.py b/resources/whitepaper/sympyx.py
index 3b5f9a4..991f21a 100644
--- a/resources/whitepaper/sympyx.py
+++ b/resources/whitepaper/sympyx.py
@@ -110,7 +110,7 @@ class XEq(sympyEq):
     def __rtruediv__(self, o):
         "divides two equations or equation by scalar"
         if isinstance(o, sympyEq):
-            return self.__class__(self.lhs/o.lhs, self.rhs/o.rhs)._simplify()
+            return self.__class__(o.lhs/self.lhs, o.rhs/self.rhs)._simplify()
         return self.__class__(o/self.lhs, o/self.rhs)._simplify()  
     
     def __pow__(self, o):
-- 
2.43.0


From 49db2410f097cfa03fb165c69504bdb5aa328728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:33 +0000
Subject: [PATCH 120/122] fix: sympyx.subs raised NameError

---
 resources/whitepaper/sympyx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/whitepaper/sympyx.py b/resources/whitepaper/sympyx.py
index 991f21a..dced8e7 100644
--- a/resources/whitepaper/sympyx.py
+++ b/resources/whitepaper/sympyx.py
@@ -127,9 +127,9 @@ class XEq(sympyEq):
 
 def subs(expr, eqn, simplify=True):
     "substitute eqn.lhs for eqn.rhs in expr"
-    result = expr.subs(eqn.lhs, eqh.rhs)
+    result = expr.subs(eqn.lhs, eqn.rhs)
     if simplify:
-        result = result._simplify()
+        result = result.simplify()
     return result
 
 Eq = XEq
\ No newline at end of file
-- 
2.43.0


From 0a06119f5d605e32c7025fca9d9ba5c3196e8733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 121/122] fix: FORMULAS: YiPE held the equation of xint

---
 resources/whitepaper/CarbonCalculations.ipynb | 2 +-
 resources/whitepaper/CarbonCalculations.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/whitepaper/CarbonCalculations.ipynb b/resources/whitepaper/CarbonCalculations.ipynb
index e867187..685c3bb 100644
--- a/resources/whitepaper/CarbonCalculations.ipynb
+++ b/resources/whitepaper/CarbonCalculations.ipynb
@@ -2719,7 +2719,7 @@
    "outputs": [],
    "source": [
     "FORMULAS.add(\n",
-    "    \"YiPE\", XiPE, \n",
+    "    \"YiPE\", YiPE, \n",
     "    \"yint from P\", \n",
     "    \"yint as function of Px and Py\", \n",
     ")"
diff --git a/resources/whitepaper/CarbonCalculations.py b/resources/whitepaper/CarbonCalculations.py
index be9e3c4..4029695 100644
--- a/resources/whitepaper/CarbonCalculations.py
+++ b/resources/whitepaper/CarbonCalculations.py
@@ -663,7 +663,7 @@ FORMULAS.add(
 )
 
 FORMULAS.add(
-    "YiPE", XiPE, 
+    "YiPE", YiPE, 
     "yint from P", 
     "yint as function of Px and Py", 
 )
-- 
2.43.0


From a0e3690b92faf2032abf2dcd07a184acbb610623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 122/122] fix: YMPE was the wrong root (negative liquidity)

---
 resources/whitepaper/CarbonCalculations.ipynb | 2 +-
 resources/whitepaper/CarbonCalculations.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/whitepaper/CarbonCalculations.ipynb b/resources/whitepaper/CarbonCalculations.ipynb
index 685c3bb..a8a3e6f 100644
--- a/resources/whitepaper/CarbonCalculations.ipynb
+++ b/resources/whitepaper/CarbonCalculations.ipynb
@@ -1842,7 +1842,7 @@
    "metadata": {},
    "outputs": [],
    "source": [
-    "YMPE = MPBSE.isolate(y)\n",
+    "YMPE = Eq(y, solve(sqrt(MPBSE.lhs) - (B+S*y/yint), y)[0])\n",
     "YMPE"
    ]
   },
diff --git a/resources/whitepaper/CarbonCalculations.py b/resources/whitepaper/CarbonCalculations.py
index 4029695..e9d95fa 100644
--- a/resources/whitepaper/CarbonCalculations.py
+++ b/resources/whitepaper/CarbonCalculations.py
@@ -307,7 +307,7 @@ MPBSE
 
 # This is an important equation that determines the liquidity amount $y$ as a function of the marginal price.
 
-YMPE = MPBSE.isolate(y)
+YMPE = Eq(y, solve(sqrt(MPBSE.lhs) - (B+S*y/yint), y)[0])
 YMPE
 
 # Below is the **Swap Equation** (ie $\Delta y$ as a function of $\Delta x$) in B,S parameterization.
-- 
2.43.0

