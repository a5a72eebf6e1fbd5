"""Properties of the proxy and the websocket bridge: connections, their queues, the request loop."""
import itertools, json, re
from common import *
from p_srv import Trace, show_t, Undecided, plain
import p_srv

S = lambda k, t: {"sym": k, "ty": t}
BACKEND = S("backend", "corpus::zq::Backend")
REQ = lambda i: {"adt": "std::result::Result", "variant": "Ok", "f": {"0": S(f"req{i}", "zod_core::rpc::Request")}}
RSP = lambda i: {"adt": "std::result::Result", "variant": "Err", "f": {"0": S(f"rsp{i}", "zod_core::rpc::Response")}}


class CRun:
    """evaluates expressions over the proxy and the bridge, without witness programs"""
    def __init__(self, ctx, jobs):
        from concurrent.futures import ThreadPoolExecutor
        ctx.engine()
        n = max(1, min(8, len(jobs)))
        with ThreadPoolExecutor(8) as pool: outs = list(pool.map(lambda i: ctx.eval(None, jobs[i::n], f"con{i}"), range(n)))
        self.res, self.meta = {}, {"files": [], "functions": 0, "visited": set()}
        for o in outs:
            if o["errors"]: raise CheckError("sources not readable: " + str(o["errors"])[:500])
            self.meta["files"] = o["files"]; self.meta["functions"] = max(self.meta["functions"], o["functions"]); self.meta["visited"] |= set(o["visited"])
            for r in o["results"]: self.res[r["id"]] = r
        ctx.count("evaluations", len(jobs))


def syms(v, out=None):
    """keys of the symbols in a rendered value"""
    out = [] if out is None else out
    if isinstance(v, dict):
        if v.get("k") == "sym": out.append(v["key"])
        for x in v.values(): syms(x, out)
    elif isinstance(v, list):
        for x in v: syms(x, out)
    return out


def tables(v, out=None, cell=None):
    """identities of the stream tables in a rendered value"""
    out = set() if out is None else out
    if isinstance(v, dict):
        if v.get("k") == "cell": cell = v["id"]
        if v.get("k") == "adt" and v["ty"].endswith("SubscriberMap"): out.add(cell)
        for x in v.values(): tables(x, out, cell)
    elif isinstance(v, list):
        for x in v: tables(x, out, cell)
    return out


def chans(keys, end): return {k[:-3] for k in keys if re.fullmatch(r"chan#\d+\." + end, k)}


def flat(t, x): raise Undecided(x)


# ------------------------------------------------------------------------------------------------ sequences of sends
class Sequences:
    """connections of one proxy, and messages sent over them; everything spawned runs afterwards"""
    def __init__(s, ctx, conns, length, oks=(True, False)):
        s.ctx, s.conns = ctx, conns
        jobs, s.seq = [], {}
        ops = [(c, ok) for c in range(conns) for ok in oks]
        def job(jid, q, conns, **opts):
            s.seq[jid] = (q, conns)
            ex = "{ let p = BackendProxy::new(a0); "
            for c in range(conns):
                ex += (f"let q{c} = p.clone(); let c{c} = q{c}.connect(); " if c % 2 else f"let c{c} = p.connect(); ") + f"let (t{c}, r{c}) = c{c}.split(); "
            for i, (c, ok) in enumerate(q): ex += f"let s{i} = t{c}.send(a{i + 1}); "
            ex += "((" + ", ".join(f"r{c}" for c in range(conns)) + ",), (" + ", ".join(f"s{i}" for i in range(len(q))) + ",), p) }"
            jobs.append(dict(id=jid, op="expr", closed=True, module="zod::rpc::servers::proxy", **{"limit": 4000, **opts}, args=[BACKEND] + [(REQ if ok else RSP)(i) for i, (c, ok) in enumerate(q)], expr=ex))
        for n in range(1, length + 1):
            for seq in itertools.product(ops, repeat=n):
                if seq[0][0] != 0: continue  # connections are interchangeable up to their order of creation; both orders occur below
                for mirror in (False, True) if conns > 1 else (False,):
                    q = [(conns - 1 - c if mirror else c, ok) for c, ok in seq]
                    jid = "-".join(f"{c}{'ok' if ok else 'err'}" for c, ok in q)
                    if jid not in s.seq: job(jid, q, conns)
        # long runs in which every send is taken: many messages, many connections
        n = s.many = max([24] + [v for v in mined("src/rpc/servers", top=300 if ctx.thorough else 150)]) + 3
        pre = {f"send on chan#{c}.tx#{i}": 0 for c in range(1, n + 4) for i in range(1, n + 1)}
        pre.update({f"chan#{c}.tx.is_closed#{i}": 0 for c in range(1, n + 4) for i in range(1, n + 1)})
        for name, q, k in (("many messages", [((i * i + i // 3) % 2, i % 5 != 3) for i in range(n)], 2), ("many connections", [(i, i % 4 != 2) for i in range(n)] + [(0, True)], n),
                           ("many undecodable messages", [(0, False) for i in range(n - 1)] + [(0, True)], 1)):
            if len(oks) > 1: job(name, q, k, preset=pre, max_steps=50000000, limit=40)
        s.run = CRun(ctx, jobs)
        s.meta = s.run.meta

    def each(s):
        und = 0
        for jid, (seq, s.conns) in s.seq.items():
            r = s.run.res[jid]
            ts = [Trace(t) for t in r["traces"] if t["kind"] != "cut"]
            tops = [t for t in ts if t.kind == "top"]
            if tops or r["incomplete"] or not ts:
                und += 1; s.ctx.undecide(jid, tops[0].text if tops else "not all paths were followed")
            for t in ts:
                if t.kind == "top": continue
                s.ctx.count("paths")
                yield jid, seq, t
        if und == len(s.seq): raise CheckError("no sequence of requests could be followed: " + str(s.ctx.undecided[:2])[:700])


def parts(v):
    """(receiving halves, results of the sends)"""
    try: return v["v"][0]["v"], v["v"][1]["v"]
    except (KeyError, IndexError, TypeError): raise Undecided("the connection halves are not visible")


def handled(t):
    """[(message number, call or send effect)] in the order the tasks handle the messages"""
    out = []
    for e in t.eff:
        if e["kind"] == "call" and e["args"][1] == "handle_request": out.append(("req", e))
        elif e["kind"] == "send" and e["task"] != 0: out.append(("send", e))
    return out


def accepted(seq, results):
    """numbers of the messages the queue took"""
    return [i for i, r in enumerate(results) if r.get("k") == "adt" and r.get("variant") == "Ok"]


def msgno(keys):
    for k in keys:
        m = re.fullmatch(r"re[qs](?:p)?(\d+)", k) or re.fullmatch(r"r(?:eq|sp)(\d+)", k)
        if m: return int(m[1])
    return None


def desc(seq):
    x = [f"{'request' if ok else 'undecodable message'} {i} over connection {c}" for i, (c, ok) in enumerate(seq)]
    return ", ".join(x) if len(x) <= 8 else ", ".join(x[:3]) + f" … {x[-1]}"


def check_R05(ctx):
    s = Sequences(ctx, 3 if ctx.thorough else 2, 3)
    for jid, seq, t in s.each():
        if t.kind != "value": continue  # R06
        rx, res = parts(t.value)
        own = [chans(syms(r), "rx") for r in rx]
        for a, b in itertools.combinations(range(s.conns), 2):
            if own[a] & own[b]: ctx.violate("shared", f"connections {a} and {b} receive from the same channel {sorted(own[a] & own[b])}", path=show_t(t))
        if any(not o for o in own): raise Undecided("a receiving half holds no channel")
        tabs = {}
        for kind, e in handled(t):
            n = msgno(syms(e["args"]))
            if n is None or n >= len(seq): continue
            c = seq[n][0]
            dest = chans([e["args"][0]["key"]], "tx") if kind == "send" else chans(syms(e["args"][2]), "tx")
            ctx.count("answers followed")
            if not dest: raise Undecided("the sender passed to the backend is not visible")
            for d in dest:
                if d not in own[c]:
                    to = [i for i in range(s.conns) if d in own[i]]
                    ctx.violate("foreign", f"{desc(seq)}: the answers to message {n} go to " + (f"connection {to[0]}" if to else f"{d}, which no connection reads") + f" instead of connection {c}", path=show_t(t))
            if kind == "req":
                tb = tables(e["args"][2])
                if len(tb) != 1: raise Undecided(f"{len(tb)} stream tables are passed to the backend")
                tabs.setdefault(c, {})[n] = tb.pop()
        for c, m in tabs.items():
            ctx.count("tables compared", len(m))
            if len(set(m.values())) > 1: ctx.violate("table:lost", f"{desc(seq)}: the requests of connection {c} are handled with different tables of running streams", path=show_t(t))
        for a, b in itertools.combinations(tabs, 2):
            if set(tabs[a].values()) & set(tabs[b].values()):
                ctx.violate("table:shared", f"{desc(seq)}: connections {a} and {b} share one table of running streams, so equal ids of the two meet", path=show_t(t))
        if tabs and ctx.counts["paths"] % 60 == 1: ctx.sample({"sends": desc(seq), "tables": {str(k): v for k, v in tabs.items()}, "path": show_t(t)})
    if not ctx.counts.get("answers followed"): raise CheckError("no request could be followed to the backend")
    # every websocket opens its own connection
    b = Bridge(ctx, 2, one=True)
    for t in b.each():
        ins = [b.pipe(t, i) for i in range(2)]
        for i, (q, mine, rx, tb) in enumerate(ins):
            if not rx: continue
            ctx.count("websockets compared")
            if mine and not mine <= rx: ctx.violate("ws:foreign", f"answers to requests of websocket {i} are sent to {sorted(mine)} while the websocket reads {sorted(rx)}", path=show_t(t))
        if ins[0][2] & ins[1][2]: ctx.violate("ws:shared", "two websockets read answers from one channel", path=show_t(t))
        if ins[0][3] & ins[1][3]: ctx.violate("ws:table", "two websockets share one table of running streams", path=show_t(t))
    return s


def check_R07(ctx):
    s = Sequences(ctx, 2, 4 if ctx.thorough else 3)
    for jid, seq, t in s.each():
        if t.kind != "value": continue  # R06
        rx, res = parts(t.value)
        spawns = t.of("spawn")
        if len(spawns) != 1:
            ctx.violate("tasks", f"{desc(seq)}: {len(spawns)} tasks are started, one is meant to handle all requests", path=show_t(t)); continue
        task = int(spawns[0]["args"][0]["v"])
        queue = {k for e in t.of("send", task=0) for k in chans([e["args"][0]["key"]], "tx")}
        kinds = {e["args"][0]["key"]: e["args"][1] for e in t.of("channel") if len(e["args"]) > 1}
        ctx.count("queues", len(queue))
        for q in queue:
            if kinds.get(q) == "bounded": ctx.violate("bounded", f"{desc(seq)}: the request queue {q} is bounded; it drops or delays requests when full", path=show_t(t))
        if len(queue) > 1: ctx.violate("queues", f"{desc(seq)}: requests of one backend go through {len(queue)} queues", path=show_t(t))
        want = accepted(seq, res)
        sent = []
        for e in t.of("send", task=0):
            n = msgno(syms(e["args"][1]))
            if n is not None: sent.append(n)
        if sorted(sent) != sorted(set(sent)): ctx.violate("twice", f"{desc(seq)}: a message is put into the queue twice: {sent}", path=show_t(t)); continue
        if set(want) - set(sent): ctx.violate("lost", f"{desc(seq)}: messages {sorted(set(want) - set(sent))} are accepted but not put into the queue", path=show_t(t)); continue
        got = [n for kind, e in handled(t) for n in [msgno(syms(e["args"]))] if n is not None]
        ctx.count("orders compared")
        if got != want:
            ctx.violate("order", f"{desc(seq)}: of the accepted messages {want} the task handles {got}", path=show_t(t)); continue
        # a message is taken only when the one before is done
        busy = None
        for e in t.eff:
            if e["task"] != task: continue
            if e["kind"] == "call" and e["args"][1] == "handle_request": busy = e
            elif e["kind"] == "await" and busy is not None and e["args"][0]["key"].startswith("backend.handle_request"): busy = None
            elif e["kind"] in ("recv", "recv_end") and chans([e["args"][0]["key"]], "rx") & queue and busy is not None:
                ctx.violate("overlap", f"{desc(seq)}: the next message is taken before {busy['site']} is done", path=show_t(t)); break
        if busy is not None: ctx.violate("unfinished", f"{desc(seq)}: the request handled at {busy['site']} is never run to completion", path=show_t(t))
        if any(key(e["args"][0]) != "backend" for k, e in handled(t) if k == "req"): ctx.violate("backend", "requests are handled by different backends", path=show_t(t))
        if len(want) == 3: ctx.sample({"sends": desc(seq), "path": show_t(t)})
    if not ctx.counts.get("orders compared"): raise CheckError("no request could be followed to the backend")
    return s


key = p_srv.key


# ------------------------------------------------------------------------------------------------ the websocket bridge
class Bridge:
    """websockets upgraded over one proxy; the request loop is left out"""
    def __init__(s, ctx, n, one=False):
        s.ctx, s.n = ctx, n
        ex = "{ let p = super::proxy::BackendProxy::new(a0); "
        pre = {}
        for i in range(n):
            ex += f"websocket_handler(a{i + 1}, axum::Extension(p.clone())).await; "
            if one: pre[f"recv#2 on ws{i}.socket.rx"] = 0
        jobs = [dict(id="ws", op="expr", no_spawn=1, closed=one, preset=pre, module="zod::rpc::servers::axum", limit=40000, max_steps=20000000, args=[BACKEND] + [S(f"ws{i}", "axum::extract::WebSocketUpgrade") for i in range(n)], expr=ex + "}")]
        s.run = CRun(ctx, jobs)
        s.meta = s.run.meta

    def each(s):
        r = s.run.res["ws"]
        ts = [Trace(t) for t in r["traces"] if t["kind"] != "cut"]
        tops = [t for t in ts if t.kind == "top"]
        if tops or r["incomplete"]: s.ctx.undecide("websocket", tops[0].text if tops else str(r["incomplete"])[:300])
        ts = [t for t in ts if t.kind != "top"]
        if not ts: raise CheckError("no path through the websocket handler could be followed: " + str(s.ctx.undecided[:1])[:700])
        for t in ts:
            s.ctx.count("bridge paths")
            yield t

    def socket(s, i): return f"ws{i}.socket"

    def pipe(s, t, i):
        """(queues its messages go to, channels named in them, channels it reads answers from, stream tables)"""
        so = s.socket(i)
        mine, q, tb = set(), set(), set()
        for e in t.of("send"):
            k = syms(e["args"][1])
            if any(so in x for x in k):
                q |= chans([e["args"][0]["key"]], "tx"); mine |= chans(k, "tx"); tb |= tables(e["args"][1])
        # the tasks that belong to this websocket: between its upgrade and the next
        rx, on = set(), False
        for e in t.eff:
            if e["kind"] == "upgrade": on = e["args"][0]["key"] == f"ws{i}"
            elif on and e["kind"] in ("recv", "recv_end"): rx |= chans([e["args"][0]["key"]], "rx")
        return q, mine, rx, tb


def item_no(k, stream):
    m = re.match(re.escape(stream) + r"\.item(\d+)", k)
    return int(m[1]) if m else None


class Flow:
    """what one path does with the items of one stream"""
    def __init__(s, t, stream):
        s.t, s.stream = t, stream
        s.recv = [i for i, e in enumerate(t.eff) if e["kind"] == "recv" and e["args"][0]["key"] == stream]
        s.ended = any(e["kind"] == "recv_end" and e["args"][0]["key"] == stream for e in t.eff)

    def state(s, n):
        """what the n-th receive yields: none, err, text, other, item"""
        if n > 3: return "none"
        x = s.t.said(f"recv#{n} on {s.stream}")
        if x != "some": return "none"
        it = f"{s.stream}.item{n}"
        v = s.t.said(f"variant({it})")
        if v == "Err": return "err"
        if v == "Ok":
            if s.t.said(f"is({it}.Ok.0, Text)") == "yes": return "text"
            return "other"
        return "item"


def sends_of(t, stream):
    """[(item number, send effect, index)] of the sends that carry an item of the stream"""
    out = []
    for i, e in enumerate(t.eff):
        if e["kind"] != "send": continue
        ns = {item_no(k, stream) for k in re.findall(re.escape(stream) + r"\.item\d+", json.dumps(e["args"][1]))}
        for n in ns: out.append((n, e, i))
    return out


def result_of(t, e):
    """outcome of a send: the decision with its number"""
    sends = [x for x in t.eff if x["kind"] == "send"]
    ds = [(x, y) for x, y in t.dec if x.startswith("send on ")]
    # decisions are made in the order of the sends
    i = next(k for k, x in enumerate(sends) if x is e)
    return ds[i][1] if i < len(ds) and len(ds) == len(sends) else None


def won_by(t):
    """what the arm reads that ended the last selection of the path"""
    at = [i for i, e in enumerate(t.eff) if e["kind"] == "select"]
    win = [y for x, y in t.dec if x.startswith("select at ") and y.startswith("arm ")]
    if not at or not win: return set()
    tasks = {e["task"] for e in t.eff[at[-1]:] if e["kind"] == "arm" and e["args"][0]["v"] == win[-1][4:]}
    return {key(e["args"][0]) for e in t.eff[at[-1]:] if e["kind"] in ("recv", "recv_end") and e["task"] in tasks}


def check_R11(ctx):
    b = Bridge(ctx, 1)
    so = b.socket(0)
    read = set()
    for t in b.each():
        if t.kind != "value": continue  # R06
        q, mine, rx, tb = b.pipe(t, 0)
        kinds = [e["kind"] for e in t.eff]
        # client to backend
        ins = next((k for k in (so + ".rx", so) if any(e["kind"] == "recv" and e["args"][0]["key"] == k for e in t.eff)), None)
        outs = sorted(rx)
        won = won_by(t)
        if ins: read.add("in")
        if outs: read.add("out")
        ins = ins or so + ".rx"
        f = Flow(t, ins)
        want = [n for n in range(1, len(f.recv) + 1) if f.state(n) == "text"]
        sent = [(n, e, i) for n, e, i in sends_of(t, ins)]
        ctx.count("received messages", len(f.recv))
        if [n for n, e, i in sent] != want:
            ctx.violate("in", f"of the received messages, {want} are texts; handed to the backend are {[n for n, e, i in sent]} (their order of arrival)", path=show_t(t)); continue
        if any(not chans([e["args"][0]["key"]], "tx") for n, e, i in sent): ctx.violate("in", "a text is not handed to the queue of the backend", path=show_t(t))
        if any(e["args"][1].get("k") == "sym" for n, e, i in sent): pass
        for n in range(1, len(f.recv) + 1):
            nxt = f.recv[n] if n < len(f.recv) else None
            st = f.state(n)
            if nxt is not None or st in ("none", "err"): continue
            lost = [e for m, e, i in sent if m == n and result_of(t, e) == "receiver gone"]
            if st == "text" and lost or any(c + ".rx" in won for c in outs): continue  # the other side is gone
            ctx.violate("in:end", f"the bridge stops reading the websocket after a {'text' if st == 'text' else 'message of another kind'} although both sides are there", path=show_t(t))
        # backend to client
        for c in outs:
            g = Flow(t, c + ".rx")
            sent = sends_of(t, c + ".rx")
            want = [n for n in range(1, len(g.recv) + 1) if g.state(n) != "none"]
            ctx.count("answers", len(want))
            if [n for n, e, i in sent] != want:
                ctx.violate("out", f"of the answers {want}, {[n for n, e, i in sent]} are sent on the websocket", path=show_t(t)); continue
            for n, e, i in sent:
                m = e["args"][1]
                if e["args"][0]["key"] not in (so + ".tx", so): ctx.violate("out", f"an answer goes to {e['args'][0]['key']}", path=show_t(t))
                if not (m.get("k") == "adt" and m.get("variant") == "Text"): ctx.violate("out:kind", f"an answer is sent as {m.get('variant') or m}", path=show_t(t))
                elif syms(m) != [f"json of {c}.rx.item{n}"]: ctx.violate("out:text", f"an answer is sent as text {json.dumps(plain(m['f']['0']))[:200]}, meant is its JSON", path=show_t(t))
            for n in range(1, len(g.recv) + 1):
                if n < len(g.recv) or g.state(n) == "none": continue
                if any(m == n and result_of(t, e) == "receiver gone" for m, e, i in sent) or ins in won: continue
                ctx.violate("out:end", "the bridge stops reading answers although both sides are there", path=show_t(t))
        if ctx.counts["bridge paths"] % 300 == 1: ctx.sample(show_t(t))
    if "in" not in read and ctx.counts.get("bridge paths"): ctx.violate("in", "the websocket is never read")
    elif "out" not in read and ctx.counts.get("bridge paths"): ctx.violate("out", "the answers are never read")
    elif not ctx.counts.get("answers"): raise CheckError("no answer could be followed")
    return b


def check_R12(ctx):
    # the request loop keeps no connection's state once its messages are handled
    s = Sequences(ctx, 2, 3)
    for jid, seq, t in s.each():
        if t.kind != "value": continue  # R06
        rx, res = parts(t.value)
        own = [tables(r) for r in rx]
        used = [set() for _ in own]
        for kind, e in handled(t):
            n = msgno(syms(e["args"]))
            if kind == "req" and n is not None and n < len(seq): used[seq[n][0]] |= tables(e["args"][2])
        proxy = tables(t.value["v"][2])
        for c in range(s.conns):
            if not used[c]: continue
            ctx.count("connections followed")
            if not used[c] & own[c]: ctx.violate("early", f"{desc(seq)}: the streams of connection {c} are stopped as soon as nothing sends requests over it, although its answers are still read", path=show_t(t))
            if used[c] & proxy: ctx.violate("kept:proxy", f"{desc(seq)}: the proxy itself keeps the streams of connection {c}, so they go on when the connection is gone", path=show_t(t))
        mine = set().union(*used, *own)
        for e in t.eff:
            if e["kind"] == "forget" and tables(e["args"]) & mine: ctx.violate("forgotten", f"{desc(seq)}: the table of running streams is forgotten instead of dropped", site=e["site"], path=show_t(t))
            if e["kind"] != "held": continue
            ctx.count("waiting points")
            left = tables(e["args"][1]) & mine
            if left:
                c = next((i for i in range(s.conns) if left & (used[i] | own[i])), 0)
                ctx.violate("kept:loop", f"{desc(seq)}: while it waits for the next message, the request loop still holds the table of running streams of connection {c}, so they go on when the connection is gone", site=e["site"], path=show_t(t)); break
    if not ctx.counts.get("waiting points") or not ctx.counts.get("connections followed"): raise CheckError("the request loop could not be followed")
    # a websocket that is gone ends the handler, and with it everything the handler owns
    b = Bridge(ctx, 1)
    for t in b.each():
        if t.kind != "value": continue  # R06
        read, answers, arms, group, aborted = set(), set(), {}, {}, set()
        q, mine, rx, tb = b.pipe(t, 0)
        so = b.socket(0)
        last, spawned = {}, {}
        for e in t.eff:
            k = e["kind"]
            if k in ("select", "join"): last[e["task"]] = (k, e["site"])
            elif k == "arm": group[e["task"]] = last.get(int(e["args"][1]["v"]), ("?", "")) + (int(e["args"][1]["v"]),)
            elif k == "spawn": spawned[int(e["args"][0]["v"])] = e
            elif k == "abort": aborted.add(key(e["args"][0]))
            elif k == "forget" and (tables(e["args"]) or any(so in x for x in syms(e["args"]))): ctx.violate("forgotten", "the connection is forgotten instead of dropped", site=e["site"], path=show_t(t))
            elif k in ("recv", "recv_end"):
                x = key(e["args"][0])
                if x in (so, so + ".rx"): read.add(e["task"])
                elif chans([x], "rx") & rx: answers.add(e["task"])
        if not read or not answers: continue
        ctx.count("bridge ends followed")
        def chain(x):
            """selections and joins the task takes part in, and the task it belongs to"""
            out = []
            while x in group: k, n, parent = group[x]; out.append((k, n)); x = parent
            return out, x
        for a in read:
            ca, ra = chain(a)
            for z in answers:
                cz, rz = chain(z)
                if (ra == rz and a != z and set(ca) & set(cz) and next(k for k, n in ca if (k, n) in cz) == "select"): continue
                if ra == rz and any(k == "join" for k, n in set(ca) & set(cz)):
                    ctx.violate("bridge:both", "the handler waits for both directions: when the client is gone, it goes on waiting for answers, and the streams of the connection go on", path=show_t(t))
                elif rz in spawned and f"task{rz}" in aborted: continue
                elif rz in spawned and ra in spawned and f"task{ra}" in aborted and t.of("select"): continue  # whichever ends first stops the other
                elif rz in spawned: ctx.violate("bridge:left", f"answers are read in a task of its own ({spawned[rz]['site']}) that is not stopped when the client is gone, so the streams of the connection go on", site=spawned[rz]["site"], path=show_t(t))
                elif ra in spawned: ctx.violate("bridge:left", f"the websocket is read in a task of its own ({spawned[ra]['site']}): when the client is gone, the handler goes on waiting for answers, and the streams of the connection go on", site=spawned[ra]["site"], path=show_t(t))
                else: ctx.violate("bridge:both", "answers are read only after the websocket has ended, or the other way round", path=show_t(t))
        if ctx.counts["bridge paths"] % 300 == 1: ctx.sample(show_t(t))
    if not ctx.counts.get("bridge ends followed"): raise CheckError("no path reads both the websocket and the answers")
    return s


def check_R06(ctx):
    # generated handlers, over every message
    extras = [p_srv.long_streams(ctx)[0], p_srv.big_tables(ctx)[0]]
    h = p_srv.Handlers(ctx, more=lambda w: [j for x in extras for j in x(w)])
    for (wid, k), r in h.run.res.items():
        if k.startswith("h|"): continue
        for t in map(Trace, r["traces"]):
            if t.misfit(): continue
            n = ctx.count("long paths")
            for e in t.of("task_panic"): ctx.violate("panic:long", f"{k}: the forwarding task panics: {e['args'][1]}", site=e["site"])
            if t.kind in ("panic", "abort"): ctx.violate("panic:long", f"{k.replace('|', ' ')}: handling the message ends in a {t.kind}: {t.text}", path=show_t(t))
    for w, b, jid, msg, want, t in h.each():
        for e in t.of("task_panic"): p_srv.bad(ctx, "panic:stream", b, jid, msg, t, f"the forwarding task panics: {e['args'][1]}")
        if t.kind in ("panic", "abort"): p_srv.bad(ctx, "panic", b, jid, msg, t, f"handling the message ends in a {t.kind}: {t.text}")
    # the request loop
    s = Sequences(ctx, 2, 3)
    for jid, seq, t in s.each():
        if t.kind != "value": ctx.violate("loop:panic", f"{desc(seq)}: {t.kind}: {t.text}", path=show_t(t)); continue
        for e in t.of("task_panic"): ctx.violate("loop:panic", f"{desc(seq)}: the request loop panics: {e['args'][1]}", path=show_t(t))
        rx, res = parts(t.value)
        got = {msgno(syms(e["args"])) for kind, e in handled(t)}
        ctx.count("loops compared")
        miss = [i for i in accepted(seq, res) if i not in got]
        if miss and not t.of("task_panic"):
            ctx.violate("loop:stop", f"{desc(seq)}: message {miss[0]} is accepted but never handled: the request loop has ended", path=show_t(t))
    # the bridge
    b = Bridge(ctx, 1)
    ins_names = (b.socket(0) + ".rx", b.socket(0))
    for t in b.each():
        if t.kind != "value": ctx.violate("ws:panic", f"the websocket handler ends in a {t.kind}: {t.text}", path=show_t(t)); continue
        for e in t.of("task_panic"): ctx.violate("ws:panic", f"a task of the websocket handler panics: {e['args'][1]}", path=show_t(t))
        ins = next((k for k in ins_names if any(e["kind"] == "recv" and e["args"][0]["key"] == k for e in t.eff)), None)
        if ins is None: continue
        f = Flow(t, ins)
        for n in range(1, len(f.recv) + 1):
            if f.state(n) != "text": continue
            it = f"{ins}.item{n}."
            fail = [x for x, y in t.dec if it in x and x.endswith("succeeds") and y == "no"]
            if not fail: continue
            ctx.count("undecodable texts")
            answers = [e for m, e, i in sends_of(t, ins) if m == n and is_error(e["args"][1])]
            if not answers: ctx.violate("ws:undecodable", "a text that does not decode is not answered with an error without id", path=show_t(t)); continue
            if n == len(f.recv) and not any(result_of(t, e) == "receiver gone" for e in answers) and not {c + ".rx" for c in b.pipe(t, 0)[2]} & won_by(t):
                ctx.violate("ws:undecodable", "the connection is not read any more after a text that does not decode", path=show_t(t))
    if not ctx.counts.get("undecodable texts"): raise CheckError("no undecodable text could be followed")
    return h


def is_error(v):
    """does the value hold an error response without an id?"""
    if isinstance(v, dict):
        if v.get("k") == "adt" and v["ty"].endswith("rpc::Response"):
            return v["variant"] == "Error" and v["f"].get("id", {}).get("variant") == "None"
        return any(is_error(x) for x in v.values())
    if isinstance(v, list): return any(is_error(x) for x in v)
    return False
