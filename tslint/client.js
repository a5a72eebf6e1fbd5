// Explores the states of the generated client on the abstract machine and compares its effects with the rules of
// C01-C05.  usage: node client.js job.json out.json
"use strict";
const fs = require("fs");
const { ts, SK, M, Scope, Sym, Lin, JText, Zod, Handle, Undecided, Fork, Thrown } = require("./machine.js");
const enc = (s) => s.replace(/⟨([^⟩]*)⟩/g, (_, m) => "$$m" + Buffer.from(m, "utf8").toString("hex"));

class Bad extends Error { constructor(prop, key, msg) { super(msg); this.prop = prop; this.key = key; } }

class World {
  constructor(sf, prefix, scen) {
    this.scen = scen; this.log = []; this.sockets = []; this.timers = []; this.calls = []; this.cancels = []; this.delays = []; this.counts = {};
    const m = this.m = new M(sf, prefix), w = this;
    m.decided = (q, a) => this.log.push(`  ${q}: ${a}`);
    class Socket {
      constructor(url, protocols) {
        this.url = url; this.readyState = 0; this.n = w.sockets.length; this.listeners = []; this.dead = false; this.asked = false;
        for (const k of ["onopen", "onmessage", "onerror", "onclose"]) this[k] = null;
        w.effect(`new WebSocket`);
        w.opened(this); w.sockets.push(this);
      }
      canonKeys() { return [["s", this.readyState], ["a", this.asked], ...["onopen", "onmessage", "onerror", "onclose"].map((k) => [k, this[k]]), ...this.listeners.map((l) => [l.t, l.f])]; }
      send(v) {
        if (this.readyState === 0) { w.effect("send on a connecting socket"); w.lost = v; throw m.err("DOMException", "still connecting"); }
        if (this.readyState !== 1) { w.effect("send on a closed socket: dropped"); return; }
        w.effect("send " + w.show(v)); w.wire(this, v);
      }
      close() {
        w.effect(`close socket ${this.n}`);
        this.asked = true;
        if (this.readyState >= 2) return;
        w.closing(this); this.early = this.readyState === 0; this.readyState = 2;
      }
      addEventListener(t, f, o) { this.listeners.push({ t, f, once: !!(o && o.once) }); }
      removeEventListener(t, f) { this.listeners = this.listeners.filter((l) => l.t !== t || l.f !== f); }
      fire(t, extra) {
        const ev = Object.assign({ type: t, target: this, currentTarget: this }, extra || {});
        ev.canonKeys = undefined; delete ev.canonKeys;
        w.run(() => { if (typeof this["on" + t] === "function") w.guard(t, () => Reflect.apply(this["on" + t], this, [ev])); });
        for (const l of [...this.listeners]) if (l.t === t && this.listeners.includes(l)) { if (l.once) this.listeners = this.listeners.filter((x) => x !== l); w.guard(t, () => (typeof l.f === "function" ? Reflect.apply(l.f, this, [ev]) : l.f.handleEvent(ev))); }
        m.drain();
      }
    }
    for (const [k, v] of [["CONNECTING", 0], ["OPEN", 1], ["CLOSING", 2], ["CLOSED", 3]]) { Object.defineProperty(Socket, k, { value: v }); Object.defineProperty(Socket.prototype, k, { value: v }); }
    Object.defineProperty(Socket, "name", { value: "WebSocket" });
    this.Socket = Socket;
    const G = m.global.vars;
    G.set("WebSocket", { v: Socket });
    const timer = (rep) => (f, d, ...a) => { const h = new Handle(0); w.effect(`timer after ${m.name(d)}`); w.delayed(d); w.timers.push({ h, f, a, rep }); return h; };
    const clear = (h) => { w.timers = w.timers.filter((t) => t.h !== h); };
    G.set("setTimeout", { v: timer(false) }); G.set("setInterval", { v: timer(true) }); G.set("clearTimeout", { v: clear }); G.set("clearInterval", { v: clear });
    G.set("location", { v: { protocol: "http:", host: "localhost:8000", hostname: "localhost", port: "8000", href: "http://localhost:8000/" } });
    G.set("addEventListener", { v: () => undefined });
    m.load();
    this.event = "load";
  }
  effect(x) { this.log.push(`    ${x}${this.m.line ? `  (line ${this.m.line})` : ""}`); this.counts.effects = (this.counts.effects || 0) + 1; }
  show(v) { const f = (x) => (x instanceof JText ? f(x.v) : x instanceof Sym || x instanceof Lin ? "<" + this.m.name(x) + ">" : Array.isArray(x) ? "[" + x.map(f) + "]" : x && typeof x === "object" ? "{" + Object.keys(x).map((k) => k + ":" + f(x[k])) + "}" : JSON.stringify(x)); return String(f(v)); }
  run(f) { f(); }
  guard(t, f) {
    try { f(); } catch (e) {
      if (!(e instanceof Thrown)) throw e;
      const p = { message: "C02", open: "C04", close: "C03", error: "C03", timer: "C04" }[t] || "C03";
      throw new Bad(p, "throws", `the handler of the ${t} event throws ${e.v && e.v.message || this.m.name(e.v)}`);
    }
    this.m.drain();
  }
  // ------------------------------------------------------------------ what the rules observe
  live() {
    let n = 0;
    for (const c of this.calls) { if (c.kind === "request" && !c.answered && (!c.promise || c.promise.state === "pending")) n++; if (c.kind === "stream") n += c.cbs.filter((x) => x.live).length; }
    return n;
  }
  opened(s) {
    if (this.sockets.some((x) => x.readyState === 0)) throw new Bad("C04", "second", `a connection is opened while socket ${this.sockets.find((x) => x.readyState === 0).n} is still being opened`);
    if (this.live() === 0 && !this.sending) throw new Bad("C03", "reopen", "a connection is opened although no listener remains and nothing is sent");
  }
  closing(s) { if (this.live() > 0) throw new Bad("C03", "early", `the client closes its ${s.readyState === 0 ? "connecting" : "open"} connection while ${this.live()} listener(s) remain`); }
  delayed(d) {
    if (this.scen.table === undefined) this.scen.table = this.table();
    this.delays.push(d);
    if (d === undefined) throw new Bad("C04", "delay", "the delay before re-opening is undefined");
    if (d instanceof Lin || d instanceof Sym || typeof d !== "number" || Number.isNaN(d)) { if (d instanceof Sym || d instanceof Lin) throw new Bad("C04", "delay", `the delay before re-opening is ${this.m.name(d)}, which is not bounded by the table`); throw new Bad("C04", "delay", `the delay before re-opening is ${String(d)}`); }
    const t = this.scen.table;
    if (!t.length) throw new Undecided("no table of delays");
    if (!t.includes(d)) throw new Bad("C04", "delay", `the delay before re-opening is ${d}, the table holds ${t.join(", ")}`);
  }
  // all numbers in arrays the program can reach
  table() {
    const out = new Set();
    this.walk((v) => { if (Array.isArray(v) && v.length > 1 && v.every((x) => typeof x === "number")) for (const x of v) out.add(x); });
    return [...out];
  }
  // objects and scopes the program can reach
  walk(f) {
    const seen = new Set(), todo = [this.m.module, ...this.sockets, ...this.timers.map((t) => t.f), ...this.calls.flatMap((c) => [c.promise, c.store, ...(c.cbs || []).map((x) => x.un)])];
    while (todo.length) {
      const v = todo.pop();
      if (v === null || v === undefined || typeof v !== "object" && typeof v !== "function" || seen.has(v) || v === this.m.global || v instanceof Sym || v instanceof Lin || v instanceof Zod) continue;
      seen.add(v); f(v);
      if (v instanceof Scope) { for (const b of v.vars.values()) todo.push(b.v); todo.push(v.parent); if (v.fn) todo.push(v.fn.self); continue; }
      const x = this.m.meta.get(v);
      if (x) { todo.push(x.sc); if (x.refs) todo.push(...x.refs); }
      if (v instanceof Map) for (const [a, b] of v) todo.push(a, b);
      if (v instanceof Set) todo.push(...v);
      if (v.reactions) for (const r of v.reactions) todo.push(...r.refs);
      if (typeof v === "object" || x) for (const k of Object.keys(v)) { const d = Object.getOwnPropertyDescriptor(v, k); if (d && "value" in d) todo.push(d.value); }
    }
  }
  wire(s, v) {
    const m = this.m;
    if (!(v instanceof JText)) { if (v instanceof Sym) throw new Undecided("the text of a message is not visible"); return; }
    const t = v.v, keys = t && typeof t === "object" && !Array.isArray(t) ? Object.keys(t) : [];
    if (keys.length === 1 && keys[0] === "exec") {
      const x = t.exec || {}, a = Array.isArray(x.args) ? x.args : [];
      const c = this.calls.find((c) => a.some((y) => c.args.includes(y))) || this.calls.find((c) => c.method === x.method && !c.sent);
      if (!c) throw new Bad("C01", "message", `a message is sent that belongs to no call: ${this.show(v)}`);
      const want = JSON.stringify(["args", "id", "method", "namespace"]);
      if (JSON.stringify(Object.keys(x).sort()) !== want || x.namespace !== c.ns || x.method !== c.method || a.length !== c.args.length || a.some((y, i) => y !== c.args[i]))
        throw new Bad("C01", "message", `the call ${c.ns}.${c.method}(${c.args.map((y) => y.name)}) is sent as ${this.show(v)}`);
      if (!(typeof x.id === "number" && Number.isInteger(x.id) && x.id >= 0 || x.id instanceof Lin || x.id instanceof Sym)) throw new Bad("C01", "id", `the id of a call is sent as ${this.show(x.id)}`);
      if (c.sent++) throw new Bad(c.late ? "C04" : "C01", "twice", `the message of call ${c.n} is sent twice`);
      for (const o of this.calls) if (o !== c && o.sent) this.differ(o, c, x.id);
      c.id = x.id; c.socket = s; c.items = 0;
      return;
    }
    if (keys.length === 1 && keys[0] === "cancelStream") {
      const id = t.cancelStream && t.cancelStream.id;
      const k = this.cancels.find((k) => !k.sent && k.call.id !== undefined && k.call.id === id) || this.cancels.find((k) => !k.sent && k.call.id === undefined);
      if (!k || k.call.id === undefined) throw new Bad("C01", "cancel", `a cancellation is sent for ${this.show(id)}, ` + (this.cancels.length ? "which was closed before or not at all" : "although no stream was closed"));
      k.sent++;
      if (Object.keys(t.cancelStream).length !== 1) throw new Bad("C01", "cancel", `a cancellation is sent as ${this.show(v)}`);
    }
  }
  differ(o, c, id) {
    const a = o.id, b = id;
    const same = a instanceof Sym || b instanceof Sym ? true : a instanceof Lin && b instanceof Lin ? a.base !== b.base || a.off === b.off
      : a instanceof Lin || b instanceof Lin ? (() => { const [l, n] = a instanceof Lin ? [a, b] : [b, a]; const bd = this.m.bounds.get(l.base); return n - l.off >= bd.lo && n - l.off <= bd.hi; })() : a === b;
    if (same) throw new Bad("C01", "unique", `calls ${o.n} and ${c.n} ${a === b ? "have" : "may have"} one id: ${this.show(a)}` + (a === b ? "" : ` and ${this.show(b)}`));
  }

  // ------------------------------------------------------------------ events
  fn(kind) {
    const o = this.m.module.vars.get(this.scen.ns);
    const f = o && o.v && o.v[kind === "request" ? this.scen.request : this.scen.stream];
    if (typeof f !== "function") throw new Undecided(`the function ${kind} of the SDK is not visible`);
    return f;
  }
  // all promises of the API calls that raised
  api(name, f) {
    try { const v = f(); this.m.drain(); return v; } catch (e) {
      if (!(e instanceof Thrown)) throw e;
      throw new Bad("C04", "throws", `${name} throws ${e.v && e.v.message || this.m.name(e.v)}`);
    }
  }
  open1() { return this.sockets.find((s) => s.readyState === 1); }
  start(kind) {
    const n = this.calls.length, k = kind === "request" ? this.scen.request : this.scen.stream;
    const c = { n, kind, ns: this.scen.wire, method: k, args: Array.from({ length: this.scen.argc[kind] }, (_, i) => new Sym(`call${n}.arg${i}`, "leaf")), id: undefined, sent: 0, cbs: [], answered: false, late: !this.open1() };
    const f = this.fn(kind);
    this.calls.push(c); this.sending = true;
    const r = this.api(`${kind} ${n}`, () => Reflect.apply(f, undefined, c.args));
    if (kind === "request") {
      if (!(r instanceof this.m.Promise0)) throw new Bad("C02", "promise", "a call does not return a promise");
      c.promise = r;
      if (r.state === "rejected" && !c.sent && !this.scen.parseFails) throw new Bad("C04", "rejected", `call ${n} is rejected when it is made: ${r.value && r.value.message || this.m.name(r.value)}`);
    } else {
      if (!r || typeof r.subscribe !== "function" || typeof r.close !== "function") throw new Bad("C01", "store", "a stream function does not return a store");
      c.store = r;
    }
    this.handed([c], "call");
  }
  // after handing over a message
  handed(list, what) {
    this.sending = false;
    for (const c of list) {
      if (c.sent) continue;
      if (this.open1()) throw new Bad(what === "cancel" ? "C01" : "C01", "unsent", `the connection is open but the message of ${what} ${c.n} is not sent`);
      if (!this.sockets.some((s) => s.readyState === 0) && !this.timers.length) {
        c.during = this.sockets.find((s) => s.readyState === 2 && s.theirs && !s.asked); // its end may open the next connection
        if (c.during) continue;
      }
      if (!this.sockets.some((s) => s.readyState === 0) && !this.timers.length) throw new Bad("C04", "idle", `the message of ${what} ${c.n} waits for a connection, but none is being opened`);
    }
  }
  waiting() { return [...this.calls, ...this.cancels].filter((c) => !c.sent); }

  options() {
    const o = [], S = this.scen, req = this.calls.filter((c) => c.kind === "request").length, str = this.calls.filter((c) => c.kind === "stream");
    const used = (k) => this.counts[k] || 0, left = (k) => (S[k] || 0) - used(k);
    const ev = (name, budget, f) => { if (budget && left(budget) <= 0) return; o.push({ name, f: () => { if (budget) this.counts[budget] = used(budget) + 1; f(); } }); };
    ev("request", "requests", () => this.start("request"));
    ev("stream", "streams", () => this.start("stream"));
    for (const c of str) {
      ev(`listen to stream ${c.n}`, "listens", () => {
        const k = { live: true, got: [], n: c.cbs.length };
        c.cbs.push(k);
        const cb = (...v) => { this.effect(`callback ${k.n} of stream ${c.n}: ${v.map((x) => this.m.name(x))}`); if (!k.live) throw new Bad("C03", "dead", `a listener of stream ${c.n} is called after it was removed`); k.got.push(v[0]); };
        cb.canonKeys = undefined; delete cb.canonKeys;
        k.un = this.api("subscribe", () => c.store.subscribe(cb));
        if (typeof k.un !== "function") throw new Bad("C03", "unsubscribe", "subscribing to a stream does not return a function that ends it");
      });
      c.cbs.forEach((k) => {
        if (k.live) ev(`stop listener ${k.n} of stream ${c.n}`, null, () => { k.live = false; this.api("unsubscribe", () => k.un()); });
        else ev(`stop listener ${k.n} of stream ${c.n} again`, "again", () => { this.api("unsubscribe", () => k.un()); });
      });
      ev(`close stream ${c.n}`, "cancel", () => {
        const k = { n: c.n, call: c, sent: 0 }; this.cancels.push(k); this.sending = true;
        this.api("close", () => c.store.close());
        this.handed([k], "cancel");
      });
    }
    this.sockets.forEach((s) => {
      if (s.readyState === 0) {
        ev(`socket ${s.n} opens`, null, () => {
          s.readyState = 1; s.fire("open");
          if (s.readyState === 1) for (const c of this.waiting()) throw new Bad("C04", "unsent", `the connection is open, but the message of ${c.call ? "cancellation" : "call"} ${c.n} that waited for it is not sent`);
        });
        ev(`socket ${s.n} fails to open`, "fails", () => this.gone(s, true));
      }
      if (s.readyState === 1) {
        ev(`socket ${s.n} is closed by the server`, "fails", () => this.gone(s, false));
        ev(`socket ${s.n} breaks`, "breaks", () => this.gone(s, true));
        ev(`the server begins to close socket ${s.n}`, "closings", () => { s.readyState = 2; s.theirs = true; });
        for (const c of this.calls) {
          if (!c.sent || c.socket !== s || c.id === undefined) continue;
          if (c.kind === "request" && !c.answered) { for (const k of ["method", "error"]) ev(`socket ${s.n}: ${k} answer to call ${c.n}`, null, () => this.answer(s, c, k)); }
          if (c.kind === "stream") { ev(`socket ${s.n}: item of stream ${c.n}`, "items", () => this.answer(s, c, "stream")); ev(`socket ${s.n}: error for stream ${c.n}`, "items", () => this.answer(s, c, "error")); }
        }
        ev(`socket ${s.n}: error without id`, "stray", () => this.answer(s, null, "error"));
      }
      if (s.readyState === 2) ev(`socket ${s.n} is closed`, null, () => { if (s.theirs && !s.asked) return this.gone(s, false); s.readyState = 3; if (s.early) s.fire("error"); s.fire("close"); s.dead = true; });
    });
    this.timers.forEach((t, i) => ev(`timer ${i} fires`, "timers", () => { if (!t.rep) this.timers = this.timers.filter((x) => x !== t); this.guard("timer", () => t.f(...t.a)); }));
    return o;
  }
  gone(s, err) {
    s.readyState = 3;
    if (err) s.fire("error");
    s.fire("close"); s.dead = true;
    const idle = !this.timers.length && !this.sockets.some((x) => x.readyState === 0 || x.readyState === 1);
    for (const c of this.waiting()) if (c.during === s && idle) throw new Bad("C04", "idle", `the message of ${c.call ? "cancellation" : "call"} ${c.n} waits for a connection, but none is being opened`);
    if (this.live() > 0 && !this.timers.length && !this.sockets.some((x) => x.readyState === 0 || x.readyState === 1)) throw new Bad("C03", "lost", `the connection is lost while ${this.live()} listener(s) remain, but it is not opened again`);
  }
  answer(s, c, kind) {
    const n = this.counts.answers = (this.counts.answers || 0) + 1;
    const data = new Sym(`data${n}`, "data");
    const before = this.calls.map((x) => ({ st: x.promise && x.promise.state, got: x.cbs.map((k) => k.got.length) }));
    if (c && c.kind === "request") c.answered = true;
    s.fire("message", { data: new JText(this.body(c ? kind : "stray", c, data)) });
    this.calls.forEach((x, i) => {
      if (x === c) return;
      if (x.promise && x.promise.state !== before[i].st) throw new Bad("C01", "foreign", `an answer to ${c ? "call " + c.n : "no call"} settles call ${x.n}`);
      if (x.cbs.some((k, j) => k.got.length !== before[i].got[j])) throw new Bad("C01", "foreign", `an answer to ${c ? "call " + c.n : "no call"} reaches a listener of stream ${x.n}`);
    });
    if (!c) return;
    if (c.kind === "request") {
      const p = c.promise;
      if (p.state === "pending") throw new Bad("C02", "unsettled", `the ${kind} answer to call ${c.n} does not settle its promise`);
      if (kind === "error" && p.state !== "rejected") throw new Bad("C02", "error", `an error answer resolves the promise of call ${c.n}`);
      if (kind === "method" && (p.state !== "fulfilled" || p.value !== data)) throw new Bad("C02", "data", p.state === "fulfilled" ? `call ${c.n} resolves with ${this.show(p.value)} instead of the data of its answer` : `the result of call ${c.n} rejects its promise`);
    } else c.cbs.forEach((k, j) => {
      const got = k.got.slice(before[c.n].got[j]);
      if (kind === "stream" && k.live && !(got.length === 1 && got[0] === data)) throw new Bad("C02", "item", `an item of stream ${c.n} reaches a listener ${got.length} times` + (got.length === 1 ? ` as ${this.show(got[0])}` : ""));
      if (kind === "error" && got.length) throw new Bad("C01", "error", `an error answer reaches a listener of stream ${c.n} as data`);
    });
  }
  body(kind, c, data) {
    const go = (j) => (j === null || typeof j !== "object" ? j : j.sym === "id" ? c.id : j.sym === "data" ? data : Array.isArray(j) ? j.map(go) : j.obj ? Object.fromEntries(j.obj.map(([k, x]) => [k, go(x)])) : new Sym(j.sym, "data"));
    return go(this.scen.answers[kind]);
  }
  // after every event
  settled(before) {
    for (const c of this.calls) {
      if (c.promise && c.promise.state === "fulfilled" && !c.answered) throw new Bad("C01", "unasked", `the promise of call ${c.n} resolves without an answer`);
    }
    if (before > 0 && this.live() === 0) {
      const s = this.sockets.find((x) => x.readyState < 2);
      if (s) throw new Bad("C03", "open", `no listener remains, but socket ${s.n} stays open`);
    }
  }
  key() {
    const mon = [this.calls.map((c) => [c.kind, c.sent, c.answered, c.promise ? c.promise.state : "", c.socket ? c.socket.n : -1, c.late, c.during ? c.during.n : -1, c.cbs.map((k) => k.live)]), this.cancels.map((c) => [c.n, c.sent, c.during ? c.during.n : -1]), ["requests", "streams", "listens", "again", "cancel", "fails", "breaks", "closings", "items", "stray", "timers"].map((k) => this.counts[k] || 0), this.sockets.map((s) => s.dead ? "d" : s.readyState), [...this.m.memo]];
    return JSON.stringify(mon) + this.m.canon([this.m.module, ...this.sockets.filter((s) => !s.dead), ...this.timers.map((t) => t.f), ...this.calls.flatMap((c) => [c.promise, c.store, ...c.cbs.map((k) => k.un)])]);
  }
  step(k) {
    const os = this.options();
    const i = this.m.choose(os.length + 1, { event: os.length }); // the last one ends the path
    return [os, i];
  }
}

function explore(sf, scen, out) {
  const todo = [[]], seen = new Set();
  let paths = 0;
  while (todo.length) {
    const prefix = todo.pop();
    if (++paths > scen.limit) { out.undecided.push(`${scen.id}: more than ${scen.limit} transitions`); break; }
    let w;
    try {
      w = new World(sf, prefix, scen);
      let fresh = true;
      for (;;) {
        const os = w.options();
        if (w.m.pos >= prefix.length) {
          // a new state
          const k = w.key();
          if (!seen.has(k)) { seen.add(k); out.states++; for (let i = os.length - 1; i >= 0; i--) todo.push([...prefix, i]); }
          break;
        }
        const i = prefix[w.m.pos++];
        w.log.push(os[i].name); w.m.line = 0;
        const before = w.live();
        os[i].f(); w.m.drain(); w.settled(before);
      }
      out.transitions++; out.effects += w.counts.effects || 0;
      if (out.samples.length < 3 && w.log.length > 14) out.samples.push(w.log.slice());
    } catch (e) {
      if (e instanceof Fork) { for (let i = e.n - 1; i >= 0; i--) todo.push([...prefix, i]); continue; }
      if (e instanceof Bad) { note(out, scen, w, e); continue; }
      if (e instanceof Undecided) { out.undecided.push(`${scen.id}: ${e.message}`); out.cut++; if (out.cut > 200) return; continue; }
      if (e instanceof Thrown) { out.undecided.push(`${scen.id}: the client throws when it is loaded: ${e.v && e.v.message}`); return; }
      throw e;
    }
  }
}
function note(out, scen, w, e) {
  const k = e.prop + ":" + e.key;
  const old = out.violations[k];
  const v = { prop: e.prop, key: e.key, what: e.message, scenario: scen.id, history: w ? w.log : [] };
  if (!old || old.history.length > v.history.length) out.violations[k] = v;
}

// a fixed sequence of events, given by name prefixes; every branch over opaque values is followed
function follow(sf, scen, script, out) {
  const todo = [[]];
  let n = 0;
  while (todo.length) {
    const prefix = todo.pop();
    if (++n > 3000) { out.undecided.push(`${scen.id}: too many branches`); return; }
    let w;
    try {
      w = new World(sf, prefix, scen);
      if (scen.steps) w.m.maxSteps = scen.steps;
      script(w, (name) => {
        const o = w.options().find((x) => x.name.startsWith(name));
        if (!o) throw new Undecided(`${name} is not possible`);
        w.log.push(o.name); w.m.line = 0;
        const before = w.live();
        o.f(); w.m.drain(); w.settled(before);
      });
      out.transitions++; out.effects += w.counts.effects || 0;
    } catch (e) {
      if (e instanceof Fork) { for (let i = e.n - 1; i >= 0; i--) todo.push([...prefix, i]); continue; }
      if (e instanceof Bad) { note(out, scen, w, e); continue; }
      if (e instanceof Undecided) { out.undecided.push(`${scen.id}: ${e.message}`); continue; }
      throw e;
    }
  }
}
// numeric variables and their values
function numbers(w) {
  const out = new Map();
  w.walk((v) => {
    if (v instanceof Scope) { for (const [k, b] of v.vars) if (typeof b.v === "number" && k !== "arguments") out.set(b, { get: () => b.v, set: (x) => { b.v = x; }, name: k }); return; }
    if (typeof v === "object" && !(v instanceof w.Socket) && !Array.isArray(v) && !(v instanceof Map) && !(v instanceof Set) && !(v instanceof w.m.Promise0)) for (const k of Object.keys(v)) if (typeof v[k] === "number") out.set(v, { get: () => v[k], set: (x) => { v[k] = x; }, name: k, obj: v });
  });
  return out;
}
function widen(w, series, out) {
  // variables that grew by the same amount in every round now stand for every larger value
  let n = 0;
  for (const [id, c] of series[series.length - 1]) {
    const vals = series.map((s) => s.values.get(id));
    if (vals.some((v) => typeof v !== "number")) continue;
    const d = vals[1] - vals[0];
    if (!(d > 0) || vals.some((v, i) => i && v - vals[i - 1] !== d)) continue;
    const base = "N" + ++n;
    w.m.bounds.set(base, { lo: vals[vals.length - 1], hi: Infinity });
    c.set(w.m.lin(base, 0));
    w.log.push(`${c.name} is any number from ${vals[vals.length - 1]} on`);
    out.widened.add(c.name);
  }
}
function snap(w) { const s = numbers(w); s.values = new Map([...s].map(([k, c]) => [k, c.get()])); return s; }

function main() {
  const job = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
  const sf = ts.createSourceFile("sdk.ts", enc(job.text), ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
  const out = { violations: {}, undecided: [], states: 0, transitions: 0, effects: 0, cut: 0, samples: [], widened: new Set(), scenarios: [], values: [] };
  const base = { ns: job.ns, wire: job.wire, request: job.request, stream: job.stream, argc: job.argc, answers: job.answers };
  for (const s of job.scenarios || []) {
    const n = out.states;
    explore(sf, { ...base, ...s }, out);
    out.scenarios.push({ ...s, states: out.states - n });
  }
  if (job.long) {
    const long = { ...base, id: "many calls", requests: 1e9, streams: 1e9, listens: 1e9, items: 1e9 };
    follow(sf, long, (w, ev) => {
      ev("request"); ev("socket 0 opens");
      const series = [];
      for (let i = 0; i < 4; i++) { ev(i % 2 ? "stream" : "request"); series.push(snap(w)); }
      widen(w, series, out);
      const n = w.calls.length;
      ev("request"); ev("stream"); ev("request");
      w.m.strict = true;
      for (const c of [n + 2, n]) ev(`socket 0: method answer to call ${c}`);
      ev(`listen to stream ${n + 1}`); ev(`socket 0: item of stream ${n + 1}`);
    }, out);
    // as many calls as the numbers in the source suggest
    for (const order of ["first", "last"]) follow(sf, { ...long, steps: 5e7, id: `${job.long} calls at once, ${order} answered first` }, (w, ev) => {
      ev("request"); ev("socket 0 opens");
      const f = (name, c) => { w.log.push(name); w.m.line = 0; c(); w.m.drain(); w.settled(1); };
      for (let i = 1; i < job.long; i++) f(i % 3 === 2 ? "stream" : "request", () => w.start(i % 3 === 2 ? "stream" : "request"));
      const cs = order === "first" ? w.calls : [...w.calls].reverse();
      for (const c of cs) if (c.kind === "stream") ev(`listen to stream ${c.n}`);
      for (const c of cs) f(`answer to call ${c.n}`, () => w.answer(w.sockets[0], c, c.kind === "stream" ? "stream" : "method"));
    }, out);
    const rec = { ...base, id: "many failures", requests: 1e9, streams: 1, fails: 1e9, timers: 1e9 };
    for (const first of ["fails", "opens"]) follow(sf, { ...rec, id: "many failures, " + first }, (w, ev) => {
      ev("request");
      if (first === "opens") ev("socket 0 opens");
      const series = [];
      const round = () => {
        const s = w.sockets[w.sockets.length - 1];
        if (s.readyState === 0) ev(`socket ${s.n} fails`); else ev(`socket ${s.n} is closed by the server`);
        if (w.timers.length) ev("timer 0"); else if (w.sockets[w.sockets.length - 1] === s) throw new Undecided("no timer runs");
      };
      for (let i = 0; i < 12; i++) { round(); series.push(snap(w)); }
      widen(w, series.slice(4), out);
      for (let i = 0; i < 3; i++) round();
      // a connection that opens again
      const s = w.sockets[w.sockets.length - 1];
      ev(`socket ${s.n} opens`);
      for (let i = 0; i < 6; i++) round();
    }, out);
  }
  for (const v of job.values || []) {
    // what is sent for an argument of this form
    const r = { id: v.id, sent: [] };
    const mk = (w, d) => {
      switch (d.k) {
        case "leaf": return new Sym(d.n, "leaf");
        case "const": return d.v;
        case "undefined": return undefined;
        case "bigint": return BigInt(d.v);
        case "array": return d.v.map((x) => mk(w, x));
        case "object": { const o = {}; for (const [k, x] of d.v) o[k] = mk(w, x); return o; }
        case "map": return new Map(d.v.map(([k, x]) => [mk(w, k), mk(w, x)]));
        case "set": return new Set(d.v.map((x) => mk(w, x)));
      }
      throw new Undecided("value form " + d.k);
    };
    const scen = { ...base, id: v.id, requests: 2, streams: 2 };
    const json = (w, x) => (x instanceof Sym ? { sym: x.name } : x instanceof Lin ? { sym: w.m.name(x) } : Array.isArray(x) ? x.map((y) => json(w, y)) : x && typeof x === "object" ? { obj: Object.keys(x).map((k) => [k, json(w, x[k])]) } : x);
    for (const kind of ["request", "stream"]) follow(sf, scen, (w, ev) => {
      ev("request"); ev("socket 0 opens");
      let got;
      w.wire = (s, t) => { if (t instanceof JText && t.v && t.v.exec) got = t.v.exec.args; else throw new Undecided("the message is not visible"); };
      const f = w.fn(kind);
      let err = null;
      try { const p = Reflect.apply(f, undefined, [mk(w, v.v), new Sym("second", "leaf")]); w.m.drain(); if (p instanceof w.m.Promise0 && p.state === "rejected") err = String(p.value && p.value.message || p.value); }
      catch (e) { if (!(e instanceof Thrown)) throw e; err = String(e.v && e.v.message || e.v); }
      r.sent.push({ kind, error: err, json: got === undefined ? null : json(w, got), none: got === undefined, decisions: w.log.slice(-6) });
    }, out);
    out.values.push(r);
  }
  // what was looked at
  const fns = [];
  const visit = (n) => { if ((ts.isFunctionLike(n)) && n.body) { const s = M.visited.has((ts.isBlock(n.body) ? (n.body.statements[0] || n.body) : n.body).pos * 4096 + ((ts.isBlock(n.body) ? (n.body.statements[0] || n.body) : n.body).kind & 4095)); fns.push([(n.name && n.name.getText(sf)) || (n.parent && n.parent.name && n.parent.name.getText && n.parent.name.getText(sf)) || "function", sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, s]); } ts.forEachChild(n, visit); };
  visit(sf);
  out.functions = fns;
  out.violations = Object.values(out.violations);
  out.widened = [...out.widened];
  out.undecided = [...new Set(out.undecided)];
  out.nodes = M.visited.size;
  fs.writeFileSync(process.argv[3], JSON.stringify(out));
}
main();
