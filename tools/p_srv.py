"""Properties of the RPC server: generated dispatch, running streams, the proxy and the websocket bridge."""
import json
from concurrent.futures import ThreadPoolExecutor
from common import *
from derive_run import Undecided
from spec import *
import expand as ex, sdk, p_rpc
from p_rpc import SdkRun

D = lambda k: {"$": k}
SUBS = "::zod_core::rpc::server::SubscriberMap"
ARG = lambda i: f"arg{i}"


def jh(i): return {"sym": f"jh{i}", "ty": "tokio::task::JoinHandle"}
def uid(i): return {"sym": f"id{i}", "ty": "usize"}


def handler(b, jid, msg, streams=2, inst="inst", **kw):
    """the backend handles a message (JSON with opaque parts) while `streams` streams run"""
    be = {"refmut": {"adt": "corpus::" + b.ident, "f": {(f or str(i)): {"sym": f"{inst}.{n.ident}", "ty": "corpus::" + n.ty()} for i, (f, n) in enumerate(b.fields)}}}
    args = [be, {"json": msg}, {"sym": "sender", "ty": "UnboundedSender"}]
    ins = ""
    for i in range(streams):
        ins += f"zq_subs.insert(a{len(args)}, a{len(args) + 1}); "; args += [uid(i), jh(i)]
    pre = {f"eq(id{i}, id{j})": 0 for i in range(streams) for j in range(streams) if i != j}
    return dict(id=jid, op="expr", module="corpus", args=args, preset=pre,
                expr="{ let mut zq_subs = " + SUBS + "::default(); " + ins + "let zq_req: ::std::result::Result<::zod_core::rpc::Request, ::serde_json::Error> = ::serde_json::from_value(a1); "
                     f"match zq_req {{ Ok(zq_r) => {{ <{b.ident} as ::zod_core::rpc::server::Backend>::handle_request(a0, zq_r, a2, &mut zq_subs).await; Some(zq_subs) }} Err(_) => None }} }}", **kw)


def messages(b, deep=False):
    """(id, message, expectation) for a backend; expectation: ("method"/"stream", namespace, method) or "error" or "cancel" """
    out = []
    call = lambda ns, m, args, **k: {"exec": {"id": D("id"), "namespace": ns, "method": m, "args": args, **k}}
    seen = {}
    for _, n in b.fields:
        for m in n.methods:
            k, nm = len(m.args), unraw(m.name)
            seen.setdefault(nm, set()).add(n.name())
            out.append((f"call|{n.name()}|{nm}", call(n.name(), nm, [D(ARG(i)) for i in range(k)]), (m.kind, n, m)))
            out.append((f"more|{n.name()}|{nm}", call(n.name(), nm, [D(ARG(i)) for i in range(k + 1)]), "error"))
            if k: out.append((f"less|{n.name()}|{nm}", call(n.name(), nm, [D(ARG(i)) for i in range(k - 1)]), "error"))
    names = [n.name() for _, n in b.fields]
    for nm, ns in seen.items():
        for x in names:
            if x not in ns: out.append((f"foreign|{x}|{nm}", call(x, nm, []), "error"))
    for x in names:
        for nm in ("", "nope", "from_value", "call", "Alpha"): out.append((f"unknown|{x}|{nm}", call(x, nm, []), "error"))
        out.append((f"nomethod|{x}", {"exec": {"id": D("id"), "namespace": x, "args": []}}, "error"))
        out.append((f"oddmethod|{x}", call(x, {"a": 1}, []), "error"))
        out.append((f"nullmethod|{x}", call(x, None, []), "error"))
    for odd in ("", "nope", "id", "BetaWire ", "alpha", None, 0, True, [], ["Alpha"], {"name": "Alpha"}):
        if odd not in names: out.append((f"oddns|{json.dumps(odd)}", call(odd, "one", [D("arg0")]), "error"))
    out.append(("empty", {"exec": {"id": D("id")}}, "error"))
    out.append(("cancel", {"cancelStream": {"id": D("id")}}, "cancel"))
    return out


class Trace:
    """one path through the handler"""
    def __init__(s, t):
        s.raw, s.kind, s.text = t, t["kind"], t.get("text")
        s.dec = [(a, b) for a, b in t.get("decisions", [])]
        s.eff = t.get("effects", [])
        s.value = t.get("value")

    def of(s, *kinds, task=None): return [e for e in s.eff if e["kind"] in kinds and (task is None or e["task"] == task)]
    def said(s, a): return next((y for x, y in s.dec if x == a), None)
    def misfit(s): return next((x for x, y in s.dec if " fits " in x and y == "no" and not x.startswith("id fits")), None)
    def table(s):
        """the table of running streams afterwards: [(id, handle)]"""
        m = find_map(s.value)
        if m is None: raise Undecided("the table of running streams is not visible")
        return [(key(a), key(b)) for a, b in m]


def find_map(v):
    if isinstance(v, dict):
        if v.get("k") == "map": return v["v"]
        if v.get("k") == "adt":
            for x in v["f"].values():
                r = find_map(x)
                if r is not None: return r
    return None


def key(v):
    if isinstance(v, dict):
        if v.get("k") == "sym": return v["key"]
        if v.get("k") == "int": return v["v"]
    if isinstance(v, str) and v[:1] == "⟨" and v[-1:] == "⟩": return v[1:-1]
    return json.dumps(v, ensure_ascii=False)


def plain(v):
    """JSON value of a sent message with opaque parts as {"$": key}"""
    if isinstance(v, dict):
        if v.get("k") == "sym": return {"$": v["key"]}
        if v.get("k") == "adt" and v["ty"] == "serde_json::Value":
            x = v["f"].get("0")
            if v["variant"] == "Null": return None
            if v["variant"] == "Object": return {(k if isinstance(k, str) else json.dumps(k)): plain(y) for k, y in x["v"]}
            if v["variant"] == "Array": return [plain(y) for y in x["v"]]
            return plain(x)
        if v.get("k") == "int": return int(v["v"])
    return v


def show_t(t): return {"decisions": t.dec, "effects": [f"[task {e['task']}] {e['kind']} {json.dumps([plain(a) for a in e['args']], ensure_ascii=False)[:400]} at {e['site']}" for e in t.eff]}


def wire_of(e):
    if len(e["args"]) < 3: raise Undecided("the sent value has no JSON form")
    return plain(e["args"][2])


ID = "id as usize"


class Handlers:
    """evaluates every message on every backend"""
    def __init__(s, ctx, pick=None, streams=2, worlds=None, only=None, more=None):
        s.ctx = ctx
        ws = worlds or sdk.worlds(ctx.thorough, SEED)
        ws = [w for w in ws if w.id != "w3"]
        s.exp = {}

        def extra(w):
            jobs = []
            for b in w.backends:
                for jid, msg, want in messages(b):
                    if only and not only(w, b, jid, want): continue
                    k = f"h|{b.ident}|{jid}"
                    s.exp[(w.id, k)] = (w, b, jid, msg, want)
                    jobs.append(handler(b, k, msg, streams))
            if more and w.id == "w1": jobs += more(w)
            return jobs
        s.run = s.meta_run = HRun(ctx, ws, extra)
        s.meta = s.run.meta

    def each(s):
        """(label, backend, message id, message, expectation, trace)"""
        und = tot = 0
        for (wid, k), (w, b, jid, msg, want) in s.exp.items():
            r = s.run.res[(wid, k)]
            tot += 1
            ts = [Trace(t) for t in r["traces"] if t["kind"] != "cut"]
            tops = [t for t in ts if t.kind == "top"]
            if tops or r["incomplete"]:
                und += 1; s.ctx.undecide(f"{wid}.{b.ident}.{jid}", tops[0].text if tops else "not all paths were followed")
            for t in ts:
                if t.kind == "top": continue
                if any(" fits usize" in x and y == "no" for x, y in t.dec): continue
                s.ctx.count("paths")
                yield w, b, jid, msg, want, t
        if tot and und == tot: raise CheckError("no path through the request handler could be followed: " + str(s.ctx.undecided[:2])[:600])


class HRun:
    def __init__(self, ctx, worlds, extra):
        self.ctx, self.worlds = ctx, worlds
        ctx.start_engine()
        parts = ex.expand(REPO, ctx.work, [w.render() for w in worlds], "sdk")
        for w, (p, errs) in zip(worlds, parts):
            if errs: raise CheckError(f"witness program {w.id} does not expand: {errs[0]['message']}")
        ctx.engine()
        self.res = {}
        self.meta = {"files": [], "functions": 0, "visited": set()}
        work = []
        for w, (p, _) in zip(worlds, parts):
            jobs = extra(w)
            n = max(1, min(4, len(jobs) // 40))
            for i in range(n):
                if jobs[i::n]: work.append((w, p, jobs[i::n], f"{w.id}-{i}"))
        with ThreadPoolExecutor(8) as pool: outs = list(pool.map(lambda x: (x[0], ctx.eval(x[1], x[2], x[3])), work))
        for w, o in outs:
            if o["errors"]: raise CheckError("sources not readable: " + str(o["errors"])[:500])
            self.meta["files"] = o["files"]; self.meta["functions"] = max(self.meta["functions"], o["functions"]); self.meta["visited"] |= set(o["visited"])
            ctx.count("messages", len(o["results"]))
            for r in o["results"]: self.res[(w.id, r["id"])] = r
        ctx.counts["programs"] = len(worlds)
        ctx.counts["backends"] = sum(len(w.backends) for w in worlds)


def who(b, jid): return f"{b.ident}: {jid.replace('|', ' ')}"


def bad(ctx, k, b, jid, msg, t, what): ctx.violate(k, f"{who(b, jid)}: {what}", message=msg, path=show_t(t))


def panicked(ctx, b, jid, msg, t):
    if t.kind in ("panic", "abort"):
        bad(ctx, "panic", b, jid, msg, t, f"handling the message ends in a {t.kind}: {t.text}"); return True
    return any(e["kind"] == "task_panic" for e in t.eff)


# ------------------------------------------------------------------------------------------------ R01
def check_R01(ctx):
    h = Handlers(ctx)
    for w, b, jid, msg, want, t in h.each():
        if panicked(ctx, b, jid, msg, t): continue
        try: sends = [(e, wire_of(e)) for e in t.of("send")]
        except Undecided as e: ctx.undecide(who(b, jid), str(e)); continue
        for e, x in sends:
            if e["args"][0].get("key") != "sender": bad(ctx, "channel", b, jid, msg, t, "sends to something else than the caller")
        if want == "cancel":
            if sends: bad(ctx, "answer:cancel", b, jid, msg, t, "a cancellation is answered")
            continue
        mis = t.misfit()
        if want == "error" or mis:
            ctx.count("mismatches answered")
            if t.of("user"): bad(ctx, "dispatch:mismatch", b, jid, msg, t, f"a call that matches no method runs {t.of('user')[0]['args'][:2]}")
            if len(sends) != 1: bad(ctx, "answer:count", b, jid, msg, t, f"a call that matches no method is answered {len(sends)} times"); continue
            x = sends[0][1]
            if not (isinstance(x, dict) and list(x) == ["error"] and isinstance(x["error"], dict) and set(x["error"]) == {"id", "data"} and x["error"]["id"] == {"$": ID}):
                bad(ctx, "answer:error", b, jid, msg, t, f"a call that matches no method is answered by {json.dumps(x, ensure_ascii=False)[:300]} instead of an error with its id")
            continue
        kind, n, m = want
        if kind == "stream": continue
        ctx.count("calls answered")
        us = t.of("user")
        if len(us) != 1: bad(ctx, "dispatch:count", b, jid, msg, t, f"the method runs {len(us)} times"); continue
        if len(sends) != 1: bad(ctx, "answer:count", b, jid, msg, t, f"a call is answered {len(sends)} times"); continue
        res = f"result of {us[0]['args'][0]}.{us[0]['args'][1]}"
        x = sends[0][1]
        fails = any("succeeds" in a and v == "no" for a, v in t.dec)
        if fails: ok = isinstance(x, dict) and list(x) == ["error"] and set(x["error"]) == {"id", "data"} and x["error"]["id"] == {"$": ID}
        else: ok = x == {"method": {"id": {"$": ID}, "data": {"$": f"json of {res}"}}}
        if not ok: bad(ctx, "answer:value", b, jid, msg, t, f"a call is answered by {json.dumps(x, ensure_ascii=False)[:300]}" + (" although its result cannot be serialized" if fails else ""))
        elif ctx.counts["calls answered"] % 150 == 1: ctx.sample({"message": msg, "path": show_t(t)})
    if not ctx.counts.get("calls answered"): raise CheckError("no call was answered on any path")
    return h


# ------------------------------------------------------------------------------------------------ R02
def check_R02(ctx):
    more, judge = long_streams(ctx)
    h = Handlers(ctx, only=lambda w, b, jid, want: isinstance(want, tuple) and want[0] == "stream", more=more)
    for w, b, jid, msg, want, t in h.each():
        if t.misfit() or panicked(ctx, b, jid, msg, t): continue
        ctx.count("stream starts")
        us = t.of("user")
        if len(us) != 1 or us[0]["task"] != 0: bad(ctx, "stream:call", b, jid, msg, t, f"the stream method runs {len(us)} times"); continue
        st = f"stream of {us[0]['args'][0]}.{us[0]['args'][1]}"
        if t.of("send", task=0): bad(ctx, "stream:early", b, jid, msg, t, "the handler itself sends something when a stream starts"); continue
        sp = t.of("spawn")
        recv = t.of("recv")
        tasks = {e["task"] for e in recv + t.of("send")}
        if len(sp) != 1: bad(ctx, "stream:spawn", b, jid, msg, t, f"{len(sp)} tasks are started for a stream"); continue
        k = int(sp[0]["args"][0]["v"])
        if tasks - {k}: bad(ctx, "stream:task", b, jid, msg, t, "items are not forwarded by the stream's own task"); continue
        if any(key(e["args"][0]) != st for e in recv): bad(ctx, "stream:source", b, jid, msg, t, "another stream is read"); continue
        try: tab = dict(t.table())
        except Undecided as e: ctx.undecide(who(b, jid), str(e)); tab = None
        if tab is not None:
            mine = [i for i, x in tab.items() if x == f"task{k}"]
            same_id = [i for i in (ID, "id0", "id1") if i == ID or t.said(f"eq({ID}, {i})") == "yes"]
            if len(mine) != 1 or mine[0] not in same_id: bad(ctx, "stream:remembered", b, jid, msg, t, f"the running stream is remembered under {mine}"); continue
        # items in order, one message each
        ev = [e for e in t.eff if e["task"] == k and e["kind"] in ("recv", "send", "task_end", "task_panic")]
        n, open_, problem = 0, None, None
        some = lambda i: t.said(f"recv#{i} on {st}")
        gone = lambda i: t.said(f"send on sender#{i}") == "receiver gone"
        sent, ended, lost, after = 0, False, False, 0
        closed = any(a.startswith("sender.is_closed") and v == "yes" for a, v in t.dec)    # the task asked and was told that the caller is gone
        for e in ev:
            if lost and e["kind"] in ("recv", "send"):
                after += 1 if e["kind"] == "recv" else 2
                if after > 1: problem = "the stream is read on although the caller is gone"; break
            if e["kind"] == "recv":
                if open_: problem = f"item {n} is not sent before item {n + 1} is taken"; break
                n += 1
                if some(n) == "some": open_ = n
                else: ended = True      # the stream is over, or as far as this path was followed
            elif e["kind"] == "send":
                if e["args"][0].get("key") != "sender": problem = "an item goes to something else than the caller"; break
                if not open_: problem = f"a message without an item is sent after item {n}"; break
                try: x = wire_of(e)
                except Undecided as u: ctx.undecide(who(b, jid), str(u)); break
                item = f"{st}.item{open_}"
                fails = any("succeeds" in a and item in a and v == "no" for a, v in t.dec)
                if fails: ok = isinstance(x, dict) and list(x) == ["error"] and x["error"].get("id") == {"$": ID}
                else: ok = x == {"stream": {"id": {"$": ID}, "data": {"$": f"json of {item}"}}}
                if not ok: problem = f"item {open_} is sent as {json.dumps(x, ensure_ascii=False)[:300]}"; break
                sent += 1
                if gone(sent): ended = lost = True
                open_ = None
                ctx.count("items compared")
            elif e["kind"] == "task_end":
                if open_ and not closed: problem = f"item {open_} is never sent"; break
                if not ended and not closed: problem = f"forwarding stops after item {n} although the stream goes on and the caller listens"; break
            else: problem = "the forwarding task panics"; break
        if problem: bad(ctx, "stream:items", b, jid, msg, t, problem)
        elif n > 2 and ctx.counts["items compared"] % 40 == 1: ctx.sample({"message": msg, "path": show_t(t)})
    if not ctx.counts.get("items compared"): raise CheckError("no stream forwarded an item on any path")
    judge(h.run)
    return h


# ------------------------------------------------------------------------------------------------ sizes
RPC_DIRS = ("core/src/rpc", "derive/src/rpc", "src/rpc/servers")


def sizes(base):
    """numbers of streams or items to follow: a few, and those around every number written in the sources"""
    out = set(base)
    for v in mined(*RPC_DIRS, top=200 if TIER == "thorough" else 130): out |= {v - 1, v, v + 1, v + 2}
    return sorted(out)


def no_equal(n): return {f"jh{i}.is_finished#{k}": 0 for i in range(n) for k in range(1, 5)}


def long_streams(ctx):
    """one path with many items, all of which can be serialized and sent"""
    n = max(sizes([24])) + 2

    def extra(w):
        jobs = []
        for b in w.backends:
            for jid, msg, want in messages(b):
                if not (isinstance(want, tuple) and want[0] == "stream"): continue
                st = f"stream of inst.{want[1].ident}.{want[2].name}"
                pre = {}
                for i in range(1, n + 1): pre[f"recv#{i} on {st}"] = 1; pre[f"to_value(⟨{st}.item{i}⟩) succeeds"] = 1; pre[f"send on sender#{i}"] = 0; pre[f"sender.is_closed#{i}"] = 0
                j = handler(b, f"long|{b.ident}|{jid}", msg, 0, items=n, max_steps=40_000_000, limit=60)
                j["preset"].update(pre); jobs.append(j)
                if len(jobs) >= 2: return jobs
        return jobs
    def judge(run):
        for (wid, k), r in run.res.items():
            if k.startswith("long|"): look(k, r)

    def look(k, r):
        for t in map(Trace, r["traces"]):
            if t.kind == "cut": continue
            if t.kind == "top": ctx.undecide(k, t.text); continue
            if t.misfit() or t.kind != "value" or any(" fits usize" in x and y == "no" for x, y in t.dec): continue
            ev = [e for e in t.eff if e["task"] != 0 and e["kind"] in ("recv", "send")]
            got = sum(1 for e in ev if e["kind"] == "send")
            ctx.count("long streams"); ctx.count("items compared", got)
            if got != n: ctx.violate("stream:long", f"{k}: of {n} items of a stream, {got} are sent although the caller listens", site=(ev[-1]["site"] if ev else None))
    return extra, judge


# ------------------------------------------------------------------------------------------------ R03, R04
def big_tables(ctx):
    """tables with many running streams under known ids"""
    ns = sizes([0, 1, 2, 3, 5, 9, 17])
    want = {}

    def extra(w):
        b = max(w.backends, key=lambda b: len({y.kind for _, x in b.fields for y in x.methods}))
        jobs = []
        for n in ns:
            ids = [3 * i for i in range(n)]
            def add(name, msg, exp, unknown):
                j = handler(b, f"{name}|{n}", msg, 0, max_steps=20_000_000, limit=64)
                ins = ""
                for i in range(n):
                    ins += f"zq_subs.insert(a{len(j['args'])}, a{len(j['args']) + 1}); "; j["args"] += [ids[i], jh(i)]
                j["expr"] = j["expr"].replace("::default(); ", "::default(); " + ins, 1)
                j["preset"] = no_equal(n)
                jobs.append(j); want[j["id"]] = (n, ids, exp, unknown)
            for at in sorted({0, n // 2, n - 1} & set(range(n))): add(f"cancel {ids[at]} of", {"cancelStream": {"id": ids[at]}}, at, None)
            add("cancel an unknown stream of", {"cancelStream": {"id": 1}}, None, None)
            m = next(((x, y) for _, x in b.fields for y in x.methods if y.kind == "stream"), None)
            c = next(((x, y) for _, x in b.fields for y in x.methods if y.kind == "method"), None)
            ex_ = lambda mm, i: {"exec": {"id": i, "namespace": mm[0].name(), "method": unraw(mm[1].name), "args": [D(ARG(k)) for k in range(len(mm[1].args))]}}
            if m:
                add("a new stream besides", ex_(m, 1), None, 1)
                if n: add(f"a stream with id {ids[-1]} besides", ex_(m, ids[-1]), n - 1, ids[-1])
            if c: add("a call besides", ex_(c, 1), None, None)
        return jobs
    def judge(run):
        for (wid, k), r in run.res.items():
            if k in want: look(k, r)

    def look(k, r):
        n, ids, hit, new = want[k]
        for t in map(Trace, r["traces"]):
            if t.kind == "cut": continue
            if t.kind == "top": ctx.undecide(k, t.text); continue
            if t.kind != "value" or t.misfit(): continue
            try: tab = dict(t.table())
            except Undecided as e: ctx.undecide(k, str(e)); continue
            ctx.count("tables compared")
            ab = sorted(key(e["args"][0]) for e in t.of("abort"))
            tasks = [f"task{key(e['args'][0])}" for e in t.of("spawn") if e["task"] == 0]
            exp = {str(ids[i]): f"jh{i}" for i in range(n) if i != hit}
            if new is not None: exp[str(new)] = tasks[0] if len(tasks) == 1 else "the new stream"
            what = f"{k.replace('|', ' ')} running streams"
            if ab != ([f"jh{hit}"] if hit is not None else []): ctx.violate("big:abort", f"{what}: stopped are {ab[:6]}, meant is {[f'jh{hit}'] if hit is not None else 'none'}", path=show_t(t))
            elif {str(a): b for a, b in tab.items()} != exp:
                d = sorted(set(exp.items()) ^ set((str(a), b) for a, b in tab.items()))[:4]
                ctx.violate("big:table", f"{what}: the table of running streams differs from the one meant: {d}", path=show_t(t))
    return extra, judge


def check_R03(ctx):
    more, judge = big_tables(ctx)
    h = Handlers(ctx, more=more)
    for w, b, jid, msg, want, t in h.each():
        if t.kind != "value": continue
        ctx.count("tables compared")
        try: tab = t.table()
        except Undecided as e: ctx.undecide(who(b, jid), str(e)); continue
        before = {f"id{i}": f"jh{i}" for i in range(2)}
        ab = [key(e["args"][0]) for e in t.of("abort")]
        after = dict(tab)
        hit = [i for i in before if t.said(f"eq({ID}, {i})") == "yes" or t.said(f"eq({i}, {ID})") == "yes"]
        over = {x for x, y in t.dec for hnd in before.values() if "is_finished" in x and hnd in x and y in ("yes", "true") for x in [hnd]}
        tasks = [f"task{key(e['args'][0])}" for e in t.of("spawn") if e["task"] == 0]
        if want == "cancel":
            ctx.count("cancellations")
            kill = [before[i] for i in hit]
            left = {i: x for i, x in before.items() if i not in hit}
            if len(t.dec) and sorted(ab) != sorted(kill): bad(ctx, "cancel:abort", b, jid, msg, t, f"a cancellation of {kill or 'an unknown stream'} stops {ab or 'nothing'}"); continue
            gone = {i for i in left if i not in after}
            if {i: x for i, x in after.items()} != {i: x for i, x in left.items() if i not in gone} or any(left[i] not in over for i in gone):
                bad(ctx, "cancel:table", b, jid, msg, t, f"after the cancellation of {kill or 'an unknown stream'} the table is {after}, expected {left}"); continue
            if t.of("user") or tasks: bad(ctx, "cancel:effect", b, jid, msg, t, "a cancellation runs something else"); continue
            if ctx.counts["cancellations"] % 9 == 1: ctx.sample({"message": msg, "path": show_t(t), "table": after})
            continue
        # every running stream stays reachable for cancellation or is stopped
        vals = [x for _, x in tab]
        for i, x in before.items():
            if x not in vals and x not in ab and x not in over: bad(ctx, "unreachable", b, jid, msg, t, f"the running stream {i} leaves the table without being stopped")
            if x in vals and after.get(i) != x: bad(ctx, "moved", b, jid, msg, t, f"the running stream {i} is remembered under another id")
            if x in ab and i not in hit: bad(ctx, "collateral", b, jid, msg, t, f"the running stream {i} is stopped by a request with another id")
        for x in tasks:
            if x not in vals and x not in ab: bad(ctx, "unreachable", b, jid, msg, t, "the started task is not in the table of running streams")
    if not ctx.counts.get("cancellations"): raise CheckError("no cancellation could be followed")
    judge(h.run)
    return h


def check_R04(ctx):
    ws = [w for w in sdk.worlds(ctx.thorough, SEED) if w.id == "w1"]
    jobs = []
    ns = sizes([0, 1, 2, 3, 4, 5, 20])
    for n in ns:
        args, ins, pre = [], "", {}
        for i in range(n):
            ins += f"zq_subs.insert(a{2 * i}, a{2 * i + 1}); "; args += [uid(i) if n < 6 else 7 * i, jh(i)]
            for j in range(n):
                if i != j and n < 6: pre[f"eq(id{i}, id{j})"] = 0
        if n >= 6: pre = no_equal(n)
        jobs.append(dict(id=f"drop{n}", op="expr", max_steps=20_000_000, module="corpus", args=args, preset=pre, expr="{ let mut zq_subs = " + SUBS + f"::default(); {ins} ::std::mem::drop(zq_subs); }}"))
    # after a stream was started and another cancelled through the backend
    run = HRun(ctx, ws, lambda w: jobs)
    for n in ns:
        r = run.res[("w1", f"drop{n}")]
        for t in map(Trace, r["traces"]):
            if t.kind == "top": ctx.undecide(f"drop{n}", t.text); continue
            ctx.count("tables dropped"); ctx.count("streams stopped", n)
            if t.kind != "value": ctx.violate("panic", f"dropping a table of {n} streams ends in a {t.kind}: {t.text}", path=show_t(t)); continue
            ab = sorted(key(e["args"][0]) for e in t.of("abort"))
            over = sorted({h for h in (f"jh{i}" for i in range(n)) for x, y in t.dec if "is_finished" in x and h in x and y in ("yes", "true")})
            missed = sorted({f"jh{i}" for i in range(n)} - set(ab) - set(over))
            if missed: ctx.violate("drop", f"dropping a table of {n} running streams does not stop {', '.join(missed[:4])}", path=show_t(t))
            else: ctx.sample({"streams": n, "path": show_t(t)})
    if not ctx.counts.get("tables dropped"): raise CheckError("the drop of the table could not be followed: " + str(ctx.undecided[:1])[:500])
    return run


# ------------------------------------------------------------------------------------------------ R08, R09
def calls(ctx):
    h = Handlers(ctx, only=lambda w, b, jid, want: isinstance(want, tuple))
    for w, b, jid, msg, want, t in h.each():
        if panicked(ctx, b, jid, msg, t): continue
        kind, n, m = want
        us = t.of("user")
        if t.misfit():
            if us: bad(ctx, "dispatch:unfit", b, jid, msg, t, f"{m.name} runs although an argument does not fit")
            continue
        yield h, w, b, jid, msg, n, m, t, us


def check_R08(ctx):
    h = None
    for h, w, b, jid, msg, n, m, t, us in calls(ctx):
        ctx.count("dispatches compared")
        got = [e["args"][:2] for e in us]
        if got != [[f"inst.{n.ident}", unraw(m.name)]]:
            bad(ctx, "dispatch", b, jid, msg, t, f"the call reaches {got}, meant is {m.name} of {n.ident}"); continue
        if ctx.counts["dispatches compared"] % 400 == 1: ctx.sample({"message": msg, "path": show_t(t)})
    if not ctx.counts.get("dispatches compared"): raise CheckError("no call could be followed to its method")
    run = SdkRun(ctx, sdk.worlds(ctx.thorough, SEED)); run.parse()
    p_rpc.check_client_names(ctx, run)
    return h


def check_R09(ctx):
    h = None
    for h, w, b, jid, msg, n, m, t, us in calls(ctx):
        for e in us:
            ctx.count("argument lists compared")
            got = [key(x) for x in e["args"][2]["v"]]
            want = [f"{ARG(i)} as " for i, _ in enumerate(m.args)]
            if len(got) != len(want) or any(not g.startswith(x) for g, x in zip(got, want)):
                bad(ctx, "args", b, jid, msg, t, f"{m.name} receives {got} for the transmitted arguments {[ARG(i) for i in range(len(m.args))]}"); continue
            for g, (an, at) in zip(got, m.args):
                if at.startswith("zq::") and not g.endswith(" as corpus::" + at): bad(ctx, "argtype", b, jid, msg, t, f"argument {an} of {m.name} is decoded as {g}")
            if ctx.counts["argument lists compared"] % 400 == 1: ctx.sample({"message": msg, "method": m.rust(), "receives": got})
    if not ctx.counts.get("argument lists compared"): raise CheckError("no call could be followed to its method")
    run = SdkRun(ctx, sdk.worlds(ctx.thorough, SEED)); run.parse()
    p_rpc.check_client_args(ctx, run)
    return h
