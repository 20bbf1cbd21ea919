"""Rewrites the per-property part and the table of planted changes of DESIGN.md (python3 vp/design.py)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vp"))
import spec

HOW = {
    "C01": "`compute_swap_step` runs on free prices, liquidity, amount and fee, once per direction and side. Oracle: the order relations of the statement. The compiled function's big-integer steps become integer quotients; the relation between rounding up and down is nonlinear and goes to z3/cvc5.",
    "C02": "As C01; oracle: fee = ceil(rate x amount in / (1 - rate)) exactly, or everything offered and not swapped when the step stops short.",
    "C03": "`get_delta_x`, `get_delta_y` against the exact rational value as an inequality between integer products (no division in the oracle). `get_delta_x` up rounds an intermediate quotient down first; the statement allows that one unit of the intermediate precision.",
    "C04": "The four next-price functions against the exact price as products, and a whole step's amounts against the exact curve value of its own price move.",
    "C06": "Every operation of the decimal macros is called on the type pairs the contract uses; the oracle is integer arithmetic over the raw values with explicit floor/ceil, failing exactly when the result does not fit.",
    "C07": "Every cast for every source width; oracle: the same integer or an error, decided by the target's range.",
    "C08": "`from_fee` and `to_fee` on free values: growth x liquidity <= fee; the holder's part <= growth x liquidity; holders whose liquidities add up get no more than the fee; readings wrap modulo 2^128.",
    "C09": "`get_tick_at_sqrt_price` and `calculate_sqrt_price` run over windows of consecutive ticks with the price free in the window: the engine forks on the logarithm's bits and margins, and the answer's own price and the next grid tick's price bracket the given price. Cost: 60 s per 4000 ticks; quick takes 53 windows of 60 to 200 ticks, thorough the whole range.",
    "C10": "`calculate_fee_growth_inside` with free tick order and wrapping counters: additivity of adjacent ranges, accrual inside and outside, and `Tick::cross` leaving the inside growth of every range as it is.",
    "C11": "`Tick::update`, `Tick::create` and `calculate_max_liquidity_per_tick` on free records against signed integer arithmetic.",
    "C12": "`Tick::cross` twice on a free tick and pool.",
    "C13": "`Tickmap::flip/get` on symbolic placement and `next/prev_initialized` over three free 64-bit chunks from a start bit (quick: bits 0, 31, 63; thorough: more); oracle: no marked tick nearer, and the answer is marked, for every tick of the window.",
    "C14": "`get_closer_limit` over a free chunk and limit, both ends of the grid.",
    "C15": "`Position::update/modify/claim_fee` on free counters; oracle: floor(liquidity x growth) in integers.",
    "C16": "`Position::create` then `remove` on the pool they made, price free at, below, in and above the range; amounts out <= amounts in.",
    "C17": "`Pool::add_fee` and `withdraw_protocol_fee` on free pools.",
    "C18": "`calculate_seconds_per_liquidity_*` on free counters.",
    "C19": "Every service operation open to everybody is run once with free arguments and caller on a world with one pool; configuration and receivers compared before and after.",
    "C20": "Sequences of additions and removals of free tiers; oracle: the set.",
    "C21": "`create_pool` on free tokens, tier, price and the given ticks; oracle: the conjunction in the statement, both directions (succeeds exactly if).",
    "C22": "The storage's balance operations on two users with up to two tokens of free amounts; oracle: integers per (user, token), all four compared after each operation.",
    "C28": "`Positions` through storage and service with up to three positions of free content and a free index; oracle: the list with the last element moved into the gap.",
    "C30": "Service call on a free pool record and balances, twice.",
    "C26": "The service's `create_position` on a world with free pool, ticks (new or any content), balances, time and limits. Oracle: integer curve amounts, tick and pool records recomputed by the harness, everything else compared field by field; refusals are compared with the disjunction of reasons.",
    "C27": "`remove_position` likewise; a position that is backed (its ticks and pool hold at least its liquidity) must not be refused.",
    "C29": "`claim_fee` likewise.",
    "C23": "`calculate_swap` on one pool with two nested positions (four ticks), free amount and limit, up to six steps. Oracle: the set of positions gives the active liquidity and the crossings at the final price; amounts against the curve over the price pieces crossed.",
    "C24": "`quote` then `swap` with free balances: state compared before and after the quote, and after the swap with the quote applied.",
    "C25": "`quote_route` and `swap_route` over two pools against hop-by-hop quotes in the same state.",
    "C31": "The reply handlers on two free pending transfers and any kind of payload, two answers in a row.",
    "C32": "The service's async functions are polled by the harness; the environment decides gas, whether sending fails, each token's answer (seven kinds), their order, runs in between, and time-outs. What is asked (message bytes), debited, credited, reported and still pending is compared after each step. Natively, replays run the real gstd futures over recorded system calls.",
    "C33": "`deposit_vara` / `withdraw_vara` on free values; the reply's value is recorded.",
    "C34": "Queries against the stored state with free contents at chosen places of the grid (ends, chunk borders, middle).",
    "C35": "The SDK's crate is compiled beside the contract and both run on the same free arguments: equal whenever the contract answers. The simulation runs on the pool of C23 next to `calculate_swap`.",
    "C05": "Whole histories through the service on one pool; sums of all balances and protocol fees compared with what was there; every `remove_position` must succeed.",
    "C36": "`get_liquidity*` against the opening cost: affordable, and one more unit of liquidity is not; then the real `calculate_amount_delta` on the result.",
    "C37": "Histories of four free operations (open/close/transfer, free ranges out of five, free liquidity) and one trade; oracle: the sum over the open positions for each grid tick.",
    "C38": "The service's events are recorded where they are encoded (cfg(verif) hook) and compared with the results and state changes.",
}


def part(text, name, body):
    a, b = "<!-- %s -->\n" % name, "<!-- end %s -->\n" % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + body + text[j:]


def main():
    f = os.path.join(V, "DESIGN.md")
    t = open(f).read()
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    props.sort(key=lambda d: d["id"])
    out = ""
    for d in props:
        P = spec.PROPS[d["id"]]
        out += "### %s %s\n\n%s\n\n" % (d["id"], d["title"], HOW[d["id"]])
        out += "*Bounds:* %s. " % P["bounds"]
        if P.get("assume"):
            out += "*Assumes:* %s. " % "; ".join(P["assume"])
        out += "*Beyond tests:* %s\n" % d["why_tests_cant"]
        out += "*Harnesses:* %d%s in `%s`.\n\n" % (len(P["roots"]), " (+%d thorough)" % len(P["deep"]) if P["deep"] else "", "`, `".join(sorted(files(P["roots"]))))
    t = part(t, "properties", out)
    rows = "| change | property | needs | caught by |\n|---|---|---|---|\n"
    for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        x = json.load(open(m))
        rows += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), x["property"], x["needs"], x.get("caught_by", x["property"]))
    t = part(t, "planted", rows)
    open(f, "w").write(t)


def files(roots):
    out = set()
    for f in glob.glob(os.path.join(V, "harness", "src", "*.rs")):
        s = set(re.findall(r"^pub fn (h_\w+)\(\)", open(f).read(), re.M))
        if s & set(roots):
            out.add(os.path.basename(f))
    return out


main()
