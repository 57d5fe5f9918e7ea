"""
Model of the best-matching algorithm of benchmark/core/match/impl.py as it was shipped, defects included.

Used only to identify a known finding: a violation of P28 is the listed one if and only if the code returned exactly
what this model returns for that input (same orders, same amounts). Any other violation is reported.
"""
from functools import cmp_to_key


class Rate:
    def __init__(self, input, output):
        self.input = input
        self.output = output

class Quote:
    def __init__(self, id, rate):
        self.id = id
        self.rate = rate

class Action:
    def __init__(self, id, input, output):
        self.id = id
        self.input = input
        self.output = output

def rateBySourceAmount(sourceAmount, order):
    input = sourceAmount
    output = tradeBySourceAmount(input, order)
    if output > order['y']:
        input = tradeByTargetAmount(order['y'], order)
        output = tradeBySourceAmount(input, order)
        while output > order['y']:
            input = input - 1
            output = tradeBySourceAmount(input, order)
    return Rate(input, output)

def rateByTargetAmount(targetAmount, order):
    input = min(targetAmount, order['y'])
    output = tradeByTargetAmount(input, order)
    return Rate(input, output)

def sortByMinRate(q1, q2):
    lhs = q1.rate.output * q2.rate.input
    rhs = q2.rate.output * q1.rate.input
    lt = lhs < rhs
    gt = lhs > rhs
    eq = not lt and not gt
    is_lt = lt or (eq and q1.rate.output < q2.rate.output)
    is_gt = gt or (eq and q1.rate.output > q2.rate.output)
    return is_lt - is_gt

def sortByMaxRate(q1, q2):
    return sortByMinRate(q2, q1)

def getParams(order):
    y, z, A, B = [order[k] for k in 'yzAB']
    return [y, z, decodeFloat(A), decodeFloat(B)]

def getLimit(order):
    y, z, A, B = getParams(order)
    return (y * A + z * B) // z if z > 0 else 0

def equalizeByTargetAmount(order, limit):
    y, z, A, B = getParams(order)
    return (y * A + z * (B - limit)) // A if A > 0 else y

def equalizeBySourceAmount(order, limit):
    return tradeByTargetAmount(equalizeByTargetAmount(order, limit), order)

def matchBest(amount, orders, quotes, filter, trade, equalize):
    orders = [orders[quote.id] for quote in quotes] + [{k: 0 for k in 'yzAB'}]

    for n in range(1, len(orders)):
        limit = getLimit(orders[n])
        rates = [trade(equalize(order, limit), order) for order in orders[:n]]
        total = sum(rate.input for rate in rates)
        delta = total - amount
        if delta >= 0:
            break

    if delta > 0:
        lo = limit
        hi = getLimit(orders[n - 1])
        while lo + 1 < hi:
            limit = (lo + hi) // 2
            rates = [trade(equalize(order, limit), order) for order in orders[:n]]
            total = sum(rate.input for rate in rates)
            delta = total - amount
            if delta > 0:
                lo = limit
            elif delta < 0:
                hi = limit
            else: # delta == 0
                break

    if delta > 0:
        for i in reversed(range(len(rates))):
            rate = trade(rates[i].input - delta, orders[i])
            delta += rate.input - rates[i].input
            rates[i] = rate
            if delta <= 0:
                break
    elif delta < 0:
        for i in range(len(rates)):
            rate = trade(rates[i].input - delta, orders[i])
            delta += rate.input - rates[i].input
            if delta > 0:
                break
            rates[i] = rate

    return [Action(quotes[i].id, rates[i].input, rates[i].output) for i in range(len(rates)) if filter(rates[i])]

def best(name, amount, orders, filter, trades):
    """what the shipped algorithm does: [(id, input, output)], or the name of the exception it ends with"""
    global tradeBySourceAmount, tradeByTargetAmount, decodeFloat
    tradeBySourceAmount, tradeByTargetAmount, decodeFloat = trades
    src = name == "matchBySourceAmount"
    rate, sort, eq = (rateBySourceAmount, sortByMinRate, equalizeBySourceAmount) if src else (rateByTargetAmount, sortByMaxRate, equalizeByTargetAmount)
    try:
        q = sorted([Quote(i, rate(amount, orders[i])) for i in orders], key=cmp_to_key(sort))
        return [(a.id, a.input, a.output) for a in matchBest(amount, orders, q, filter, rate, eq)]
    except Exception as ex:
        return type(ex).__name__
