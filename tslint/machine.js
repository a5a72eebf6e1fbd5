// Abstract machine for the TypeScript client: evaluates its syntax tree over opaque values (Sym), numbers with an
// unknown base (Lin) and a modelled environment (sockets, timers, promises).  Conditions over opaque values branch;
// nothing of the program is handed to the JavaScript engine.
"use strict";
const path = require("path");
const ts = require(path.join("/opt/veriftools/node/node_modules", "typescript"));
const SK = ts.SyntaxKind;

class Undecided extends Error {}
class Fork extends Error { constructor(n, what) { super("fork"); this.n = n; this.what = what; } }
class Thrown { constructor(v) { this.v = v; } }

const noprim = { [Symbol.toPrimitive]() { throw new Undecided("an opaque value is converted by a built-in function"); } };
class Sym { constructor(name, kind) { this.name = name; this.kind = kind; } }   // kind: leaf (a JSON primitive), data (any JSON value), num, text, any
class Lin { constructor(base, off) { this.base = base; this.off = off; } }      // base + off, base an unknown natural number
class JText { constructor(v) { this.v = v; } }                                  // the JSON text of a structure
class Zod { }                                                                   // the validation library and its schemas
class Handle { constructor(n) { this.n = n; } }                                 // a timer
for (const c of [Sym, Lin, JText, Handle]) Object.assign(c.prototype, noprim);
Object.defineProperty(Sym.prototype, Symbol.iterator, { get() { throw new Undecided("iteration over an opaque value"); } });

class Scope {
  constructor(parent, fn) { this.vars = new Map(); this.parent = parent; this.fn = fn || (parent && parent.fn); }
  find(n) { for (let s = this; s; s = s.parent) if (s.vars.has(n)) return s; return null; }
}

class M {
  constructor(sf, prefix) {
    this.sf = sf; this.prefix = prefix; this.pos = 0; this.memo = new Map(); this.bounds = new Map(); this.lins = new Map();
    this.micro = []; this.steps = 0; this.fresh = 0; this.meta = new WeakMap(); this.visited = M.visited; this.hooks = {}; this.line = 0;
    this.setup();
  }

  // ------------------------------------------------------------------ branching
  choose(n, what) {
    if (n === 1) return 0;
    if (this.pos < this.prefix.length) return this.prefix[this.pos++];
    throw new Fork(n, what);
  }
  decide(what, opts) {
    if (this.memo.has(what)) return this.memo.get(what);
    const v = opts[this.choose(opts.length, what)];
    this.memo.set(what, v);
    this.decided && this.decided(what, v);
    return v;
  }
  lin(base, off) { const k = base + "+" + off; if (!this.lins.has(k)) this.lins.set(k, new Lin(base, off)); return this.lins.get(k); }
  // is base + off < c ?
  linLess(l, c) {
    const b = this.bounds.get(l.base), k = c - l.off; // base < k
    if (b.hi < k) return true;
    if (b.lo >= k) return false;
    const r = this.choose(2, `${l.base} < ${k}`) === 0;
    if (r) b.hi = Math.ceil(k) - 1; else b.lo = Math.ceil(k);
    return r;
  }
  name(v) {
    if (v instanceof Sym) return v.name;
    if (v instanceof Lin) return v.off ? `(${v.base}+${v.off})` : v.base;
    if (v === null || typeof v !== "object" && typeof v !== "function") return String(v);
    if (v instanceof JText) return "json";
    return "object";
  }
  truthy(v) {
    if (v instanceof Sym) return v.kind === "obj" ? true : this.decide(`truthy(${v.name})`, [true, false]);
    if (v instanceof Lin) return !this.eq(v, 0);
    return !!v;
  }
  eq(a, b, loose) {
    if (a === b) return true;
    if (b instanceof Sym || b instanceof Lin) [a, b] = [b, a];
    if (a instanceof Lin && b instanceof Lin) {
      if (a.base === b.base) return false;
      return this.decide(`${this.name(a)} = ${this.name(b)}`, [true, false]);
    }
    if (a instanceof Lin && typeof b === "number") {
      const bd = this.bounds.get(a.base), k = b - a.off;
      if (k < bd.lo || k > bd.hi || !Number.isInteger(k)) return false;
      if (bd.lo === bd.hi) return true;
      if (this.choose(2, `${a.base} = ${k}`) === 0) { bd.lo = bd.hi = k; return true; }
      if (bd.lo === k) bd.lo++; else if (bd.hi === k) bd.hi--;
      return false;
    }
    if (a instanceof Sym) {
      if (b instanceof Sym && a.name === b.name) return true;
      for (const x of [a, b]) if (this.strict && x instanceof Sym && !x.exact && /\bN\d/.test(x.name)) throw new Undecided(`a comparison with ${x.name}`);
      if (a.kind === "num" && (b === null || b === undefined || typeof b === "object" && !(b instanceof Sym) && !(b instanceof Lin))) return false;
      if (b instanceof Sym && b.kind === "obj" || a.kind === "obj") return false;
      if (b !== null && (typeof b === "object" && !(b instanceof Sym || b instanceof Lin) || typeof b === "function")) return false;
      if (b === null || b === undefined) {
        if (a.kind === "leaf" || a.kind === "text") return false;
        if (a.kind === "data" && b === undefined && !loose) return false; // JSON data is never undefined
      }
      const [x, y] = [this.name(a), this.name(b)].sort();
      return this.decide(`${x} = ${y}`, [true, false]);
    }
    if (a instanceof Lin) return false;
    return loose ? a == b : a === b;
  }
  less(a, b, orEq) { // a < b, or a <= b
    if (a instanceof Lin && typeof b === "number") return this.linLess(a, orEq ? Math.floor(b) + 1 : b);
    if (b instanceof Lin && typeof a === "number") return !this.linLess(b, orEq ? a : Math.floor(a) + 1);
    if (a instanceof Lin && b instanceof Lin && a.base === b.base) return orEq ? a.off <= b.off : a.off < b.off;
    if (a instanceof Sym || b instanceof Sym || a instanceof Lin || b instanceof Lin) return this.decide(`${this.name(a)} ${orEq ? "<=" : "<"} ${this.name(b)}`, [true, false]);
    return orEq ? a <= b : a < b;
  }
  num(op, a, b) {
    if (a instanceof Lin && typeof b === "number" && Number.isInteger(b)) {
      if (op === "+") return this.lin(a.base, a.off + b);
      if (op === "-") return this.lin(a.base, a.off - b);
      if (op === "*" && b === 1) return a;
      if (op === "%" && b > 0 && b <= 8) { const t = this.name(a) + "%" + b; return this.decide(t, [...Array(b).keys()]); }
    }
    if (b instanceof Lin && typeof a === "number" && op === "+" && Number.isInteger(a)) return this.lin(b.base, b.off + a);
    if (a instanceof Lin && b instanceof Lin && a.base === b.base && op === "-") return a.off - b.off;
    const s = (x) => x instanceof Sym || x instanceof Lin || x instanceof JText;
    if (s(a) || s(b)) {
      const k = a instanceof Lin ? b : a;
      if (["&", "%", "|", ">>>"].includes(op) && (a instanceof Lin || a.exact) && typeof k === "number") {
        const x = new Sym(`(${this.name(a)}${op}${this.name(b)})`, "num"); x.exact = true; return x;
      }
      const text = op === "+" && [a, b].some((x) => typeof x === "string" || x instanceof JText || x instanceof Sym && x.kind === "text");
      return new Sym(`(${this.name(a)}${op}${this.name(b)})`, text ? "text" : "num");
    }
    switch (op) {
      case "+": return a + b; case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; case "**": return a ** b;
      case "&": return a & b; case "|": return a | b; case "^": return a ^ b; case "<<": return a << b; case ">>": return a >> b; case ">>>": return a >>> b;
    }
    throw new Undecided("operator " + op);
  }
  typeOf(v) {
    if (v instanceof Sym) {
      if (v.kind === "num") return "number";
      if (v.kind === "text") return "string";
      if (v.kind === "obj") return "object";
      return this.decide(`typeof ${v.name}`, v.kind === "leaf" ? ["string", "number", "boolean"] : ["object", "string", "number", "boolean"]);
    }
    if (v instanceof Lin) return "number";
    if (v instanceof JText) return "string";
    if (v instanceof Zod) return "object";
    return typeof v;
  }

  err(type, msg) { return new Thrown(new (this.g(type))(msg)); }
  g(n) { return this.global.vars.get(n).v; }

  // ------------------------------------------------------------------ promises
  promise() { return new this.Promise0(); }
  setup() {
    const m = this;
    class P {
      constructor(ex) {
        this.state = "pending"; this.value = undefined; this.reactions = []; this.done = false;
        if (ex !== undefined) {
          const [res, rej] = P.fns(this);
          try { ex(res, rej); } catch (e) { if (!(e instanceof Thrown)) throw e; rej(e.v); }
        }
      }
      static fns(p) {
        const st = { used: false };
        const res = (v) => { if (st.used) return; st.used = true; P.res(p, v); };
        const rej = (v) => { if (st.used) return; st.used = true; P.set(p, "rejected", v); };
        m.meta.set(res, { tag: "resolve", refs: [p, st] }); m.meta.set(rej, { tag: "reject", refs: [p, st] });
        return [res, rej];
      }
      static set(p, state, v) {
        p.state = state; p.value = v;
        const rs = p.reactions; p.reactions = [];
        for (const r of rs) m.micro.push(() => r.run(state, v));
      }
      static res(p, v) {
        if (v === p) return P.set(p, "rejected", new (m.g("TypeError"))("cycle"));
        if (v !== null && (typeof v === "object" || typeof v === "function") && !(v instanceof Sym || v instanceof Lin || v instanceof JText || v instanceof Zod)) {
          let th;
          th = v.then;
          if (typeof th === "function") {
            m.micro.push(() => { const [a, b] = P.fns(p); try { Reflect.apply(th, v, [a, b]); } catch (e) { if (!(e instanceof Thrown)) throw e; b(e.v); } });
            return;
          }
        }
        P.set(p, "fulfilled", v);
      }
      react(r) { if (this.state === "pending") this.reactions.push(r); else { const s = this.state, v = this.value; m.micro.push(() => r.run(s, v)); } }
      then(f, r) {
        const p = new P();
        const [res, rej] = P.fns(p);
        this.react({ refs: [f, r, p], run(state, v) {
          const h = state === "fulfilled" ? f : r;
          if (typeof h !== "function") { state === "fulfilled" ? res(v) : rej(v); return; }
          let x;
          try { x = h(v); } catch (e) { if (!(e instanceof Thrown)) throw e; rej(e.v); return; }
          res(x);
        } });
        return p;
      }
      catch(r) { return this.then(undefined, r); }
      finally(f) {
        if (typeof f !== "function") return this.then(f, f);
        const a = (v) => P.resolve(f()).then(() => v), b = (v) => P.resolve(f()).then(() => { throw new Thrown(v); });
        m.meta.set(a, { tag: "finally", refs: [f] }); m.meta.set(b, { tag: "finally", refs: [f] });
        return this.then(a, b);
      }
      static resolve(v) { if (v instanceof P) return v; const p = new P(); P.fns(p)[0](v); return p; }
      static reject(v) { const p = new P(); P.fns(p)[1](v); return p; }
      static withResolvers() { const p = new P(); const [resolve, reject] = P.fns(p); return { promise: p, resolve, reject }; }
      static all(l) {
        const p = new P(), [res, rej] = P.fns(p), out = []; let n = 0; const xs = [...l];
        if (!xs.length) res(out);
        xs.forEach((x, i) => P.resolve(x).then((v) => { out[i] = v; if (++n === xs.length) res(out); }, rej));
        return p;
      }
      static race(l) { const p = new P(), [res, rej] = P.fns(p); for (const x of l) P.resolve(x).then(res, rej); return p; }
    }
    this.Promise0 = P;
    const E = (name, base) => { const c = { [name]: class extends (base || Object) { constructor(msg) { super(); this.message = msg; this.name = name; } } }[name]; return c; };
    const Err = E("Error");
    const nop = () => undefined;
    const math = {};
    for (const k of Object.getOwnPropertyNames(Math)) math[k] = Math[k];
    const lift = (f, n) => (...a) => a.some((x) => x instanceof Sym || x instanceof Lin) ? new Sym(`${n}(${a.map((x) => m.name(x))})`, "num") : f(...a);
    for (const k of Object.keys(math)) if (typeof math[k] === "function") math[k] = lift(Math[k], k);
    math.min = (...a) => (a.length ? a.reduce((x, y) => (m.less(x, y) ? x : y)) : Infinity);
    math.max = (...a) => (a.length ? a.reduce((x, y) => (m.less(y, x) ? x : y)) : -Infinity);
    for (const k of ["floor", "ceil", "round", "trunc", "abs"]) { const f = math[k]; math[k] = (x) => (x instanceof Lin && m.bounds.get(x.base).lo + x.off >= 0 ? x : f(x)); }
    math.random = () => new Sym("random", "num");
    const str = (v) => (v instanceof Sym || v instanceof Lin ? new Sym(`text(${m.name(v)})`, "text") : v instanceof JText ? v : String(v));
    const numc = (v) => (v instanceof Lin ? v : v instanceof Sym ? (v.kind === "num" ? v : new Sym(`number(${v.name})`, "num")) : Number(v));
    const Num = (v) => numc(v);
    Object.assign(Num, { isInteger: (v) => v instanceof Lin || Number.isInteger(v), isFinite: (v) => v instanceof Lin || Number.isFinite(v), isNaN: (v) => Number.isNaN(v), MAX_SAFE_INTEGER: Number.MAX_SAFE_INTEGER, parseInt: Number.parseInt, isSafeInteger: (v) => v instanceof Lin || Number.isSafeInteger(v) });
    const Bool = (v) => m.truthy(v);
    const Str = (v) => str(v);
    const con = new Proxy({}, { get: () => nop });
    this.zod = new Zod();
    const clock = () => new Sym("now", "num");
    const G = {
      undefined, NaN, Infinity, Promise: P, Set, Map, WeakMap, WeakSet, Object: Object, Array, Math: math, Number: Num, Boolean: Bool, String: Str, Symbol, Error: Err, TypeError: E("TypeError", Err), RangeError: E("RangeError", Err), DOMException: E("DOMException", Err),
      JSON: { stringify: (v, r, i) => m.stringify(v, r), parse: (t, r) => m.jparse(t, r) }, console: con, performance: { now: clock }, Date: Object.assign(function () { return { now: clock }; }, { now: clock }),
      parseInt: (v) => (v instanceof Lin ? v : v instanceof Sym ? numc(v) : parseInt(v)), isNaN: (v) => (v instanceof Lin ? false : isNaN(v)), Reflect,
      queueMicrotask: (f) => { m.micro.push(() => f()); }, structuredClone: (v) => m.clone(v),
    };
    this.global = new Scope(null, null);
    for (const k of Object.keys(G)) this.global.vars.set(k, { v: G[k] });
    for (const k of ["globalThis", "window", "self"]) this.global.vars.set(k, { v: new Proxy({}, { get: (_, p) => (m.global.vars.has(p) ? m.global.vars.get(p).v : undefined), has: (_, p) => m.global.vars.has(p) }) });
  }
  drain() { let n = 0; while (this.micro.length) { if (++n > 5000) throw new Undecided("microtasks do not end"); this.micro.shift()(); } }

  // ------------------------------------------------------------------ JSON
  clone(v) {
    if (v === null || typeof v !== "object" || v instanceof Sym || v instanceof Lin) return v;
    if (Array.isArray(v)) return v.map((x) => this.clone(x));
    const o = {}; for (const k of Object.keys(v)) o[k] = this.clone(v[k]); return o;
  }
  stringify(v, r) {
    const m = this, stack = [];
    const white = Array.isArray(r) ? r : null;
    const go = (holder, key, v) => {
      if (v !== null && typeof v === "object" && !(v instanceof Sym || v instanceof Lin || v instanceof JText || v instanceof Zod) && typeof v.toJSON === "function") v = v.toJSON(key);
      if (typeof r === "function") v = Reflect.apply(r, holder, [key, v]);
      if (v instanceof Sym || v instanceof Lin) return v;
      if (v instanceof JText) return v;
      if (typeof v === "bigint") throw m.err("TypeError", "Do not know how to serialize a BigInt");
      if (v === undefined || typeof v === "function" || typeof v === "symbol") return undefined;
      if (typeof v === "number") return Number.isFinite(v) ? v : null;
      if (v === null || typeof v !== "object") return v;
      if (stack.includes(v)) throw m.err("TypeError", "cyclic structure");
      stack.push(v);
      let o;
      if (Array.isArray(v)) o = Array.from(v, (x, i) => { const y = go(v, String(i), x); return y === undefined ? null : y; });
      else {
        o = {};
        for (const k of white || Object.keys(v)) { if (!Object.prototype.hasOwnProperty.call(v, k)) continue; const y = go(v, k, v[k]); if (y !== undefined) o[k] = y; }
      }
      stack.pop();
      return o;
    };
    const x = go({ "": v }, "", v);
    return x === undefined ? undefined : new JText(x);
  }
  jparse(t, rev) {
    if (rev !== undefined) throw new Undecided("JSON.parse with a reviver");
    if (t instanceof JText) return this.clone(t.v);
    if (t instanceof Sym) throw new Undecided("JSON.parse of an opaque text");
    try { return JSON.parse(t); } catch { throw this.err("Error", "not JSON"); }
  }

  // ------------------------------------------------------------------ program
  tick(node) {
    if (++this.steps > (this.maxSteps || 200000)) throw new Undecided("too many steps");
    this.visited.add(node.pos * 4096 + (node.kind & 4095));
  }
  lineOf(node) { return this.sf.getLineAndCharacterOfPosition(node.getStart(this.sf)).line + 1; }
  load() {
    const sc = new Scope(this.global, null);
    this.module = sc; this.exports = new Map();
    sc.isModule = true;
    this.runSync(this.block(this.sf.statements, sc));
    this.drain();
    return sc;
  }
  runSync(gen) { const r = gen.next(); if (!r.done) throw new Undecided("await outside of an async function"); return r.value; }

  declare(sc, n, v) { sc.vars.set(n, { v }); }
  hoist(stmts, sc) {
    for (const s of stmts) {
      if (ts.isFunctionDeclaration(s) && s.body && s.name) this.declare(sc, s.name.text, this.fn(s, sc));
      else if (ts.isModuleDeclaration(s) && s.body && s.name && !sc.vars.has(s.name.text)) this.declare(sc, s.name.text, {});
      else if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) this.names(d.name, (n) => { if (!sc.vars.has(n)) sc.vars.set(n, { v: undefined, tdz: !!(s.declarationList.flags & ts.NodeFlags.BlockScoped) }); });
      else if (ts.isClassDeclaration(s) && s.name) sc.vars.set(s.name.text, { v: undefined, tdz: true });
    }
  }
  names(b, f) {
    if (ts.isIdentifier(b)) f(b.text);
    else for (const e of b.elements) if (!ts.isOmittedExpression(e)) this.names(e.name, f);
  }
  *block(stmts, sc) {
    this.hoist(stmts, sc);
    for (const s of stmts) { const c = yield* this.st(s, sc); if (c) return c; }
  }
  *st(s, sc) {
    this.tick(s);
    switch (s.kind) {
      case SK.InterfaceDeclaration: case SK.TypeAliasDeclaration: case SK.EmptyStatement: case SK.ExportDeclaration: case SK.DebuggerStatement: return;
      case SK.ImportDeclaration: {
        const c = s.importClause;
        if (!c || c.isTypeOnly) return;
        if (c.name) this.declare(sc, c.name.text, this.zod);
        if (c.namedBindings) { if (ts.isNamespaceImport(c.namedBindings)) this.declare(sc, c.namedBindings.name.text, this.zod); else for (const e of c.namedBindings.elements) this.declare(sc, e.name.text, this.zod); }
        return;
      }
      case SK.FunctionDeclaration: return;
      case SK.ClassDeclaration: { const c = yield* this.cls(s, sc); if (s.name) this.declare(sc, s.name.text, c); return; }
      case SK.EnumDeclaration: {
        const o = {}; let n = 0;
        for (const mb of s.members) { const v = mb.initializer ? yield* this.ev(mb.initializer, sc) : n; const k = mb.name.text; o[k] = v; if (typeof v === "number") { o[v] = k; n = v + 1; } }
        this.declare(sc, s.name.text, o); return;
      }
      case SK.ModuleDeclaration: {
        if (!s.body || !ts.isModuleBlock(s.body)) return;
        const o = sc.vars.get(s.name.text).v;
        const inner = new Scope(sc, sc.fn);
        inner.exportsTo = o;
        const c = yield* this.block(s.body.statements, inner);
        for (const x of s.body.statements) {
          if (!(ts.canHaveModifiers(x) && (ts.getModifiers(x) || []).some((y) => y.kind === SK.ExportKeyword))) continue;
          if ((ts.isFunctionDeclaration(x) || ts.isClassDeclaration(x) || ts.isEnumDeclaration(x)) && x.name) o[x.name.text] = inner.vars.get(x.name.text).v;
          else if (ts.isVariableStatement(x)) for (const d of x.declarationList.declarations) this.names(d.name, (n) => { o[n] = inner.vars.get(n).v; });
        }
        for (const x of s.body.statements) if (ts.isExportDeclaration(x) && x.exportClause && ts.isNamedExports(x.exportClause)) for (const e of x.exportClause.elements) { const v = inner.vars.get((e.propertyName || e.name).text); if (v) o[e.name.text] = v.v; }
        return c;
      }
      case SK.VariableStatement: for (const d of s.declarationList.declarations) yield* this.vdecl(d, sc, s.declarationList); return;
      case SK.ExpressionStatement: yield* this.ev(s.expression, sc); return;
      case SK.Block: return yield* this.block(s.statements, new Scope(sc));
      case SK.IfStatement:
        if (this.truthy(yield* this.ev(s.expression, sc))) return yield* this.st1(s.thenStatement, sc);
        if (s.elseStatement) return yield* this.st1(s.elseStatement, sc);
        return;
      case SK.ReturnStatement: return { t: "return", v: s.expression ? yield* this.ev(s.expression, sc) : undefined };
      case SK.ThrowStatement: throw new Thrown(yield* this.ev(s.expression, sc));
      case SK.BreakStatement: return { t: "break", l: s.label && s.label.text };
      case SK.ContinueStatement: return { t: "continue", l: s.label && s.label.text };
      case SK.LabeledStatement: { const c = yield* this.st(s.statement, Object.assign(new Scope(sc), { label: s.label.text })); if (c && c.t === "break" && c.l === s.label.text) return; return c; }
      case SK.WhileStatement: case SK.DoStatement: {
        let first = s.kind === SK.DoStatement;
        while (first || this.truthy(yield* this.ev(s.expression, sc))) { first = false; const c = yield* this.st1(s.statement, sc); const k = this.loop(c, sc); if (k === 2) return c; if (k === 1) break; this.tick(s); }
        return;
      }
      case SK.ForStatement: {
        let l = new Scope(sc);
        if (s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) for (const d of s.initializer.declarations) yield* this.vdecl(d, l, s.initializer); else yield* this.ev(s.initializer, l); }
        for (;;) {
          if (s.condition && !this.truthy(yield* this.ev(s.condition, l))) break;
          const c = yield* this.st1(s.statement, l); const k = this.loop(c, sc); if (k === 2) return c; if (k === 1) break;
          const n = new Scope(sc); for (const [x, y] of l.vars) n.vars.set(x, { ...y }); l = n;
          if (s.incrementor) yield* this.ev(s.incrementor, l);
          this.tick(s);
        }
        return;
      }
      case SK.ForOfStatement: case SK.ForInStatement: {
        const it = yield* this.ev(s.expression, sc);
        const seq = s.kind === SK.ForInStatement ? this.keys(it) : this.iter(it);
        for (let x of seq) {
          if (s.awaitModifier) x = yield { await: x, node: s, sc };
          const l = new Scope(sc);
          if (ts.isVariableDeclarationList(s.initializer)) yield* this.bind(s.initializer.declarations[0].name, x, l, true); else yield* this.assign(s.initializer, x, l);
          const c = yield* this.st1(s.statement, l); const k = this.loop(c, sc); if (k === 2) return c; if (k === 1) break;
          this.tick(s);
        }
        return;
      }
      case SK.SwitchStatement: {
        const v = yield* this.ev(s.expression, sc), l = new Scope(sc), cs = s.caseBlock.clauses;
        for (const c of cs) this.hoist(c.statements, l);
        let at = -1;
        for (let i = 0; i < cs.length && at < 0; i++) if (ts.isCaseClause(cs[i]) && this.eq(v, yield* this.ev(cs[i].expression, l))) at = i;
        if (at < 0) at = cs.findIndex((c) => ts.isDefaultClause(c));
        if (at < 0) return;
        for (let i = at; i < cs.length; i++) for (const x of cs[i].statements) { const c = yield* this.st(x, l); if (c) { if (c.t === "break" && !c.l) return; return c; } }
        return;
      }
      case SK.TryStatement: {
        let c;
        try {
          try { c = yield* this.st(s.tryBlock, sc); }
          catch (e) {
            e = this.lift(e);
            if (!(e instanceof Thrown) || !s.catchClause) throw e;
            const l = new Scope(sc);
            if (s.catchClause.variableDeclaration) yield* this.bind(s.catchClause.variableDeclaration.name, e.v, l, true);
            c = yield* this.st(s.catchClause.block, l);
          }
        } catch (e) {
          if (e instanceof Thrown && s.finallyBlock) { const f = yield* this.st(s.finallyBlock, sc); if (f) return f; }
          throw e;
        }
        if (s.finallyBlock) { const f = yield* this.st(s.finallyBlock, sc); if (f) return f; }
        return c;
      }
      case SK.ExportAssignment: yield* this.ev(s.expression, sc); return;
    }
    throw new Undecided(`statement ${SK[s.kind]} at line ${this.lineOf(s)}`);
  }
  *st1(s, sc) { return ts.isBlock(s) ? yield* this.st(s, sc) : yield* this.st(s, sc); }
  loop(c, sc) { if (!c) return 0; if (c.t === "return") return 2; if (c.l && c.l !== sc.label) return 2; return c.t === "break" ? 1 : 0; }
  lift(e) {
    if (e instanceof TypeError || e instanceof RangeError) { const m = e.message || ""; return this.err(e instanceof TypeError ? "TypeError" : "RangeError", m); }
    return e;
  }
  keys(v) { if (v instanceof Sym) throw new Undecided("keys of an opaque value"); return v === null || v === undefined ? [] : Object.keys(v); }
  iter(v) {
    if (v instanceof Sym || v instanceof Lin || v instanceof Zod) throw new Undecided("iteration over an opaque value");
    if (v === null || v === undefined || typeof v[Symbol.iterator] !== "function") throw this.err("TypeError", "not iterable");
    return v;
  }
  *vdecl(d, sc, list) {
    let t = sc;
    const v = d.initializer ? yield* this.ev(d.initializer, sc) : undefined;
    if (!d.initializer && !(list.flags & ts.NodeFlags.BlockScoped) && ts.isIdentifier(d.name) && sc.find(d.name.text)) return;
    yield* this.bind(d.name, v, t, true);
  }
  *bind(b, v, sc, decl) {
    if (ts.isIdentifier(b)) { this.declare(sc, b.text, v); if (typeof v === "function" && this.meta.get(v) && !this.meta.get(v).name) this.meta.get(v).name = b.text; return; }
    if (ts.isArrayBindingPattern(b)) {
      const it = this.iter(v)[Symbol.iterator]();
      for (const e of b.elements) {
        if (ts.isOmittedExpression(e)) { it.next(); continue; }
        if (e.dotDotDotToken) { const r = []; for (let n = it.next(); !n.done; n = it.next()) r.push(n.value); yield* this.bind(e.name, r, sc, decl); break; }
        const n = it.next(); let x = n.done ? undefined : n.value;
        if (x === undefined && e.initializer) x = yield* this.ev(e.initializer, sc);
        yield* this.bind(e.name, x, sc, decl);
      }
      return;
    }
    if (v === undefined || v === null) throw this.err("TypeError", "cannot destructure");
    const used = [];
    for (const e of b.elements) {
      if (e.dotDotDotToken) { const o = {}; for (const k of this.keys(v)) if (!used.includes(k)) o[k] = v[k]; yield* this.bind(e.name, o, sc, decl); continue; }
      const k = e.propertyName ? yield* this.pname(e.propertyName, sc) : e.name.text;
      used.push(k);
      let x = this.get(v, k);
      if (x === undefined && e.initializer) x = yield* this.ev(e.initializer, sc);
      yield* this.bind(e.name, x, sc, decl);
    }
  }
  *pname(n, sc) {
    if (ts.isIdentifier(n) || ts.isPrivateIdentifier(n)) return n.text;
    if (ts.isStringLiteralLike(n) || ts.isNumericLiteral(n)) return n.text;
    if (ts.isComputedPropertyName(n)) return yield* this.ev(n.expression, sc);
    throw new Undecided("property name");
  }

  // ------------------------------------------------------------------ functions
  fn(node, sc, self, extra) {
    const m = this;
    const arrow = ts.isArrowFunction(node);
    const async_ = !!(ts.getModifiers(node) || []).some((x) => x.kind === SK.AsyncKeyword);
    if (node.asteriskToken) throw new Undecided(`generator function at line ${this.lineOf(node)}`);
    const f = arrow || extra && extra.method ? { f: (...a) => m.call0(f, undefined, a, undefined) }.f : function (...a) { return m.call0(f, this, a, new.target); };
    const fm = extra && extra.method ? function (...a) { return m.call0(fm, this, a, undefined); } : f;
    this.meta.set(fm, { node, sc, arrow, async_, name: node.name && node.name.text, ...(extra || {}) });
    return fm;
  }
  call0(f, self, args, nt) {
    const { node, sc, arrow, async_, home } = this.meta.get(f);
    if (++this.depth > 200) { this.depth = 0; throw new Undecided("recursion is too deep"); }
    const l = new Scope(sc);
    if (!arrow) {
      l.fn = { self: nt ? Object.create(nt.prototype) : self, home };
      this.declare(l, "arguments", (function () { return arguments; })(...args));
      if (nt && this.meta.get(f).init) this.meta.get(f).init(l.fn.self);
    } else l.fn = sc.fn;
    const gen = this.body(node, l, args);
    try {
      if (async_) return this.drive(gen, node);
      const v = this.runSync(gen);
      if (nt && !arrow) return v !== null && typeof v === "object" ? v : l.fn.self;
      return v;
    } finally { this.depth = Math.max(0, this.depth - 1); }
  }
  *body(node, l, args) {
    let i = 0;
    for (const p of node.parameters) {
      if (ts.isIdentifier(p.name) && p.name.text === "this") continue;
      let v = p.dotDotDotToken ? args.slice(i) : args[i];
      if (v === undefined && p.initializer) v = yield* this.ev(p.initializer, l);
      yield* this.bind(p.name, v, l, true);
      if (p.modifiers && p.modifiers.length && ts.isIdentifier(p.name) && ts.isConstructorDeclaration(node)) l.fn.self[p.name.text] = v;
      i++;
    }
    if (!ts.isBlock(node.body)) return yield* this.ev(node.body, l);
    const c = yield* this.block(node.body.statements, l);
    return c && c.t === "return" ? c.v : undefined;
  }
  drive(gen, node) {
    const p = this.promise(), m = this;
    const [res, rej] = this.Promise0.fns(p);
    const step = (how, v) => {
      let r;
      try { r = gen[how](how === "throw" ? new Thrown(v) : v); } catch (e) { e = m.lift(e); if (!(e instanceof Thrown)) throw e; rej(e.v); return; }
      if (r.done) { res(r.value); return; }
      const q = m.Promise0.resolve(r.value.await);
      q.react({ refs: [{ at: r.value.node.pos }, r.value.sc, p], run: (s, x) => step(s === "fulfilled" ? "next" : "throw", x) });
    };
    step("next");
    return p;
  }
  *cls(s, sc) {
    const m = this;
    let base = null;
    for (const h of s.heritageClauses || []) if (h.token === SK.ExtendsKeyword) base = yield* this.ev(h.types[0].expression, sc);
    if (base && !this.meta.get(base)) { if (typeof base !== "function" || !(base === this.g("Error") || base.prototype instanceof this.g("Error"))) throw new Undecided("a class extends a built-in one"); }
    const l = new Scope(sc);
    const inits = [];
    const ctor = s.members.find((x) => ts.isConstructorDeclaration(x) && x.body);
    const C = function (...a) { return m.construct(C, a, new.target || C); };
    if (base) Object.setPrototypeOf(C.prototype, base.prototype);
    if (s.name) this.declare(l, s.name.text, C);
    const st = [];
    for (const x of s.members) {
      const isStatic = (ts.getModifiers(x) || []).some((y) => y.kind === SK.StaticKeyword);
      const target = isStatic ? C : C.prototype;
      if (ts.isMethodDeclaration(x) && x.body) target[yield* this.pname(x.name, l)] = this.fn(x, l, undefined, { method: true, home: base });
      else if (ts.isGetAccessor(x) || ts.isSetAccessor(x)) {
        const k = yield* this.pname(x.name, l), f = this.fn(x, l, undefined, { method: true, home: base });
        const d = Object.getOwnPropertyDescriptor(target, k) || { configurable: true, enumerable: false };
        delete d.value; delete d.writable;
        d[ts.isGetAccessor(x) ? "get" : "set"] = f;
        Object.defineProperty(target, k, d);
      } else if (ts.isPropertyDeclaration(x)) {
        if ((ts.getModifiers(x) || []).some((y) => y.kind === SK.DeclareKeyword)) continue;
        (isStatic ? st : inits).push([yield* this.pname(x.name, l), x]);
      }
    }
    const run = (o, list) => { for (const [k, x] of list) { const q = new Scope(l); q.fn = { self: o, home: base }; o[k] = x.initializer ? m.runSync(m.ev(x.initializer, q)) : undefined; } };
    this.meta.set(C, { cls: s, sc: l, base, ctor, init: (o) => run(o, inits), name: s.name && s.name.text });
    run(C, st);
    return C;
  }
  construct(C, args, nt) {
    const c = this.meta.get(C);
    if (!c || !c.cls) return Reflect.construct(C, args, nt);
    const o = nt && nt.prototype ? Object.create(nt.prototype) : Object.create(C.prototype);
    this.initInto(C, o, args);
    return o;
  }
  initInto(C, o, args) {
    const c = this.meta.get(C);
    if (!c) { const x = Reflect.construct(C, args); Object.assign(o, x); return; }
    if (!c.base) c.init(o);
    if (c.ctor) {
      const l = new Scope(c.sc);
      l.fn = { self: o, home: c.base, superCall: (a) => { this.initInto(c.base, o, a); c.init(o); } };
      this.declare(l, "arguments", (function () { return arguments; })(...args));
      this.runSync(this.body(c.ctor, l, args));
    } else if (c.base) { this.initInto(c.base, o, args); c.init(o); }
  }

  // ------------------------------------------------------------------ expressions
  get(o, k) {
    if (o === undefined || o === null) throw this.err("TypeError", `cannot read ${this.name(k)} of ${o}`);
    if (o instanceof Zod) return o;
    if (o instanceof Sym) {
      if (o.kind === "data" && (this.eq(o, null))) throw this.err("TypeError", `cannot read ${this.name(k)} of null`);
      return new Sym(`${o.name}.${this.name(k)}`, "data");
    }
    if (o instanceof JText) { if (k === "length") return new Sym("length", "num"); throw new Undecided("a method of a text"); }
    if (k instanceof Lin) {
      if (!Array.isArray(o)) throw new Undecided("an element by an unknown number");
      const b = this.bounds.get(k.base), opts = [];
      for (let i = 0; i < o.length; i++) if (i - k.off >= b.lo && i - k.off <= b.hi) opts.push(i);
      if (b.hi + k.off >= o.length || b.lo + k.off < 0) opts.push(-1);
      const i = opts[this.choose(opts.length, `index ${this.name(k)}`)];
      if (i >= 0) b.lo = b.hi = i - k.off; else if (b.lo + k.off >= 0) b.lo = Math.max(b.lo, o.length - k.off);
      return i < 0 ? undefined : o[i];
    }
    if (k instanceof Sym) {
      if (Array.isArray(o) && k.kind === "num") { const i = this.decide(`index ${k.name}`, [...o.keys(), -1]); return i < 0 ? undefined : o[i]; }
      throw new Undecided("a property by an opaque key");
    }
    return o[k];
  }
  set(o, k, v) {
    if (o === undefined || o === null) throw this.err("TypeError", `cannot set ${this.name(k)} of ${o}`);
    if (o instanceof Sym || k instanceof Sym || k instanceof Lin && !Array.isArray(o) && Object.getPrototypeOf(o) !== Object.prototype) throw new Undecided("assignment to an opaque place");
    if (k instanceof Lin) throw new Undecided("assignment to an opaque place");
    o[k] = v;
    if (typeof v === "function" && this.meta.get(v) && !this.meta.get(v).name) this.meta.get(v).name = String(k);
  }
  has(k, o) {
    if (o instanceof Sym) { if (o.kind === "leaf") throw this.err("TypeError", "in on a primitive"); return this.decide(`${this.name(k)} in ${o.name}`, [true, false]); }
    if (o === null || typeof o !== "object" && typeof o !== "function") throw this.err("TypeError", "in on a primitive");
    if (k instanceof Sym || k instanceof Lin) throw new Undecided("in with an opaque key");
    return k in o;
  }
  instance(v, c) {
    if (typeof c !== "function") throw this.err("TypeError", "not a class");
    if (v instanceof Sym) { if (v.kind !== "data") return false; if (c === Object || c === Array) return this.decide(`${v.name} instanceof ${c.name}`, [true, false]); return false; }
    if (v instanceof Lin || v instanceof JText || v instanceof Zod) return false;
    return v instanceof c;
  }
  *call(f, self, args, node, what) {
    if (f instanceof Zod) return this.zodCall(what, args);
    if (f instanceof Sym) throw new Undecided(`an opaque value is called at line ${this.lineOf(node)}`);
    if (typeof f !== "function") throw this.err("TypeError", `${what} is not a function`);
    this.line = this.lineOf(node);
    if (f === Array.isArray && args[0] instanceof Sym) return args[0].kind === "data" ? this.decide(`isArray(${args[0].name})`, [true, false]) : false;
    if (!this.meta.get(f) && !f.ok && (f === Object.keys || f === Object.entries || f === Object.values || f === Object.assign || f === Array.from) && args.some((a) => a instanceof Sym)) throw new Undecided("an opaque value is taken apart");
    try { return Reflect.apply(f, self, args); } catch (e) { throw this.lift(e); }
  }
  zodCall(what, args) {
    if (what === "parse") return args[0];
    if (what === "safeParse") return { success: true, data: args[0] };
    if (what === "parseAsync") return this.Promise0.resolve(args[0]);
    return this.zod;
  }
  *args(list, sc) {
    const out = [];
    for (const a of list || []) if (ts.isSpreadElement(a)) out.push(...this.iter(yield* this.ev(a.expression, sc))); else out.push(yield* this.ev(a, sc));
    return out;
  }
  self(sc) { for (let s = sc; s; s = s.parent) if (s.fn) return s.fn.self; return undefined; }
  *ev(e, sc) {
    this.tick(e);
    switch (e.kind) {
      case SK.ParenthesizedExpression: case SK.AsExpression: case SK.NonNullExpression: case SK.TypeAssertionExpression: case SK.SatisfiesExpression: return yield* this.ev(e.expression, sc);
      case SK.NumericLiteral: return Number(e.text.replace(/_/g, ""));
      case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return e.text;
      case SK.BigIntLiteral: return BigInt(e.text.slice(0, -1));
      case SK.TrueKeyword: return true;
      case SK.FalseKeyword: return false;
      case SK.NullKeyword: return null;
      case SK.RegularExpressionLiteral: { const x = e.text.match(/^\/(.*)\/(\w*)$/s); return new RegExp(x[1], x[2]); }
      case SK.ThisKeyword: return this.self(sc);
      case SK.Identifier: {
        if (e.text.startsWith("$$m")) return this.zod;
        const s = sc.find(e.text);
        if (!s) { if (e.text === "undefined") return undefined; throw new Undecided(`the name ${e.text} at line ${this.lineOf(e)} is not known`); }
        const b = s.vars.get(e.text);
        if (b.tdz && b.v === undefined) throw this.err("Error", `${e.text} is used before it is declared`);
        return b.v;
      }
      case SK.TemplateExpression: {
        let s = e.head.text, op = false, nm = e.head.text;
        for (const p of e.templateSpans) { const v = yield* this.ev(p.expression, sc); if (v instanceof Sym || v instanceof Lin || v instanceof JText) { op = true; nm += this.name(v); } else { s += `${v}`; nm += `${v}`; } s += p.literal.text; nm += p.literal.text; }
        return op ? new Sym(`\`${nm}\``, "text") : s;
      }
      case SK.ArrayLiteralExpression: { const out = []; for (const a of e.elements) { if (ts.isSpreadElement(a)) out.push(...this.iter(yield* this.ev(a.expression, sc))); else if (ts.isOmittedExpression(a)) out.length++; else out.push(yield* this.ev(a, sc)); } return out; }
      case SK.ObjectLiteralExpression: {
        const o = {};
        for (const p of e.properties) {
          if (ts.isPropertyAssignment(p)) this.set(o, yield* this.pname(p.name, sc), yield* this.ev(p.initializer, sc));
          else if (ts.isShorthandPropertyAssignment(p)) o[p.name.text] = yield* this.ev(p.name, sc);
          else if (ts.isSpreadAssignment(p)) { const v = yield* this.ev(p.expression, sc); if (v instanceof Sym) throw new Undecided("an opaque value is spread"); Object.assign(o, v); }
          else if (ts.isMethodDeclaration(p)) o[yield* this.pname(p.name, sc)] = this.fn(p, sc, undefined, { method: true });
          else { const k = yield* this.pname(p.name, sc), f = this.fn(p, sc, undefined, { method: true }); const d = Object.getOwnPropertyDescriptor(o, k) || { configurable: true, enumerable: true }; delete d.value; delete d.writable; d[ts.isGetAccessor(p) ? "get" : "set"] = f; Object.defineProperty(o, k, d); }
        }
        return o;
      }
      case SK.ArrowFunction: case SK.FunctionExpression: {
        if (ts.isFunctionExpression(e) && e.name) { const l = new Scope(sc); const f = this.fn(e, l); this.declare(l, e.name.text, f); return f; }
        return this.fn(e, sc);
      }
      case SK.ClassExpression: return yield* this.cls(e, sc);
      case SK.PropertyAccessExpression: case SK.ElementAccessExpression: { const r = yield* this.ref(e, sc); return r === undefined ? undefined : r.short ? undefined : this.get(r.o, r.k); }
      case SK.CallExpression: return yield* this.evCall(e, sc);
      case SK.NewExpression: {
        const c = yield* this.ev(e.expression, sc), a = yield* this.args(e.arguments, sc);
        if (c instanceof Zod) return c;
        if (typeof c !== "function") throw this.err("TypeError", "not a constructor");
        this.line = this.lineOf(e);
        if (c === this.g("Date")) return { now: () => new Sym("now", "num") };
        try { return this.meta.get(c) && this.meta.get(c).cls ? this.construct(c, a, c) : Reflect.construct(c, a); } catch (x) { throw this.lift(x); }
      }
      case SK.ConditionalExpression: return yield* this.ev(this.truthy(yield* this.ev(e.condition, sc)) ? e.whenTrue : e.whenFalse, sc);
      case SK.PrefixUnaryExpression: {
        if (e.operator === SK.PlusPlusToken || e.operator === SK.MinusMinusToken) return yield* this.update(e.operand, (v) => this.num(e.operator === SK.PlusPlusToken ? "+" : "-", v, 1), sc);
        const v = yield* this.ev(e.operand, sc);
        if (e.operator === SK.ExclamationToken) return !this.truthy(v);
        if (v instanceof Sym || v instanceof Lin) { if (e.operator === SK.PlusToken) return v; return new Sym(`(-${this.name(v)})`, "num"); }
        return e.operator === SK.MinusToken ? -v : e.operator === SK.PlusToken ? +v : ~v;
      }
      case SK.PostfixUnaryExpression: { let old; yield* this.update(e.operand, (v) => { old = v; return this.num(e.operator === SK.PlusPlusToken ? "+" : "-", v, 1); }, sc); return old; }
      case SK.TypeOfExpression: { if (ts.isIdentifier(e.expression) && !sc.find(e.expression.text)) return "undefined"; return this.typeOf(yield* this.ev(e.expression, sc)); }
      case SK.VoidExpression: yield* this.ev(e.expression, sc); return undefined;
      case SK.DeleteExpression: { const r = yield* this.ref(e.expression, sc); if (!r || r.short) return true; if (r.k instanceof Sym || r.k instanceof Lin) throw new Undecided("delete by an opaque key"); return delete r.o[r.k]; }
      case SK.AwaitExpression: { const v = yield* this.ev(e.expression, sc); return yield { await: v, node: e, sc }; }
      case SK.BinaryExpression: return yield* this.bin(e, sc);
      case SK.CommaListExpression: { let v; for (const x of e.elements) v = yield* this.ev(x, sc); return v; }
      case SK.SpreadElement: throw new Undecided("spread");
    }
    throw new Undecided(`expression ${SK[e.kind]} at line ${this.lineOf(e)}`);
  }
  // the object and key of a member expression; {short} if an optional chain ends early
  *ref(e, sc) {
    if (e.expression.kind === SK.SuperKeyword) { let s = sc; while (s && !s.fn) s = s.parent; return { o: s.fn.home.prototype, k: e.name.text, self: s.fn.self }; }
    let o;
    const inner = e.expression;
    if (e.flags & ts.NodeFlags.OptionalChain && (ts.isPropertyAccessExpression(inner) || ts.isElementAccessExpression(inner) || ts.isCallExpression(inner)) && inner.flags & ts.NodeFlags.OptionalChain) {
      if (ts.isCallExpression(inner)) { const r = yield* this.evCall(inner, sc, true); if (r && r.short === true && r.chain) return { short: true }; o = r; }
      else { const r = yield* this.ref(inner, sc); if (r.short) return r; o = this.get(r.o, r.k); }
    } else o = yield* this.ev(inner, sc);
    if (e.questionDotToken) { if (o === undefined || o === null) return { short: true }; if (o instanceof Sym && o.kind === "data" && this.eq(o, null)) return { short: true }; }
    const k = ts.isPropertyAccessExpression(e) ? e.name.text : yield* this.ev(e.argumentExpression, sc);
    return { o, k };
  }
  *evCall(e, sc, chain) {
    if (e.expression.kind === SK.SuperKeyword) { const a = yield* this.args(e.arguments, sc); let s = sc; while (s && !(s.fn && s.fn.superCall)) s = s.parent; s.fn.superCall(a); return undefined; }
    if (e.expression.kind === SK.ImportKeyword) throw new Undecided("dynamic import");
    let f, self, what;
    let x = e.expression;
    while (ts.isParenthesizedExpression(x) || ts.isNonNullExpression(x) || ts.isAsExpression(x)) x = x.expression;
    if (ts.isPropertyAccessExpression(x) || ts.isElementAccessExpression(x)) {
      const r = yield* this.ref(x, sc);
      if (r.short) return chain ? { short: true, chain: true } : undefined;
      self = r.self !== undefined ? r.self : r.o; what = typeof r.k === "string" ? r.k : "element";
      f = this.get(r.o, r.k);
    } else { f = yield* this.ev(x, sc); what = ts.isIdentifier(x) ? x.text : "value"; }
    if (e.questionDotToken && (f === undefined || f === null)) return chain ? { short: true, chain: true } : undefined;
    const a = yield* this.args(e.arguments, sc);
    return yield* this.call(f, self, a, e, what);
  }
  *update(t, f, sc) {
    while (ts.isParenthesizedExpression(t) || ts.isNonNullExpression(t) || ts.isAsExpression(t)) t = t.expression;
    if (ts.isIdentifier(t)) { const v = f(yield* this.ev(t, sc)); this.put(t.text, v, sc); return v; }
    const r = yield* this.ref(t, sc);
    const v = f(this.get(r.o, r.k)); this.set(r.o, r.k, v); return v;
  }
  put(n, v, sc) {
    const s = sc.find(n);
    if (!s) throw new Undecided(`assignment to the unknown name ${n}`);
    const b = s.vars.get(n); b.v = v; b.tdz = false;
  }
  *assign(t, v, sc) {
    while (ts.isParenthesizedExpression(t) || ts.isNonNullExpression(t) || ts.isAsExpression(t)) t = t.expression;
    if (ts.isIdentifier(t)) return this.put(t.text, v, sc);
    if (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) { const r = yield* this.ref(t, sc); return this.set(r.o, r.k, v); }
    if (ts.isArrayLiteralExpression(t)) {
      const it = this.iter(v)[Symbol.iterator]();
      for (const e of t.elements) {
        if (ts.isOmittedExpression(e)) { it.next(); continue; }
        if (ts.isSpreadElement(e)) { const r = []; for (let n = it.next(); !n.done; n = it.next()) r.push(n.value); yield* this.assign(e.expression, r, sc); break; }
        const n = it.next(); yield* this.assign(e, n.done ? undefined : n.value, sc);
      }
      return;
    }
    if (ts.isObjectLiteralExpression(t)) {
      for (const p of t.properties) {
        if (ts.isShorthandPropertyAssignment(p)) this.put(p.name.text, this.get(v, p.name.text), sc);
        else if (ts.isPropertyAssignment(p)) yield* this.assign(p.initializer, this.get(v, yield* this.pname(p.name, sc)), sc);
        else throw new Undecided("assignment pattern");
      }
      return;
    }
    throw new Undecided("assignment target");
  }
  *bin(e, sc) {
    const op = e.operatorToken.kind;
    const L = () => this.ev(e.left, sc), R = () => this.ev(e.right, sc);
    const nullish = (v) => v === undefined || v === null || v instanceof Sym && v.kind === "data" && this.eq(v, null);
    switch (op) {
      case SK.CommaToken: yield* L(); return yield* R();
      case SK.AmpersandAmpersandToken: { const l = yield* L(); return this.truthy(l) ? yield* R() : l; }
      case SK.BarBarToken: { const l = yield* L(); return this.truthy(l) ? l : yield* R(); }
      case SK.QuestionQuestionToken: { const l = yield* L(); return nullish(l) ? yield* R() : l; }
      case SK.EqualsToken: {
        let t = e.left; while (ts.isParenthesizedExpression(t) || ts.isNonNullExpression(t) || ts.isAsExpression(t)) t = t.expression;
        if (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) { const r = yield* this.ref(t, sc); const v = yield* R(); this.set(r.o, r.k, v); return v; }
        const v = yield* R(); yield* this.assign(t, v, sc); return v;
      }
      case SK.AmpersandAmpersandEqualsToken: { const l = yield* L(); if (!this.truthy(l)) return l; const v = yield* R(); yield* this.assign(e.left, v, sc); return v; }
      case SK.BarBarEqualsToken: { const l = yield* L(); if (this.truthy(l)) return l; const v = yield* R(); yield* this.assign(e.left, v, sc); return v; }
      case SK.QuestionQuestionEqualsToken: { const l = yield* L(); if (!nullish(l)) return l; const v = yield* R(); yield* this.assign(e.left, v, sc); return v; }
      case SK.InKeyword: { const l = ts.isPrivateIdentifier(e.left) ? e.left.text : yield* L(); return this.has(l, yield* R()); }
      case SK.InstanceOfKeyword: { const l = yield* L(); return this.instance(l, yield* R()); }
    }
    const txt = e.operatorToken.getText(this.sf);
    if (txt.endsWith("=") && !["==", "===", "!=", "!==", "<=", ">="].includes(txt)) {
      const r = e.right; const rv = { g: null };
      const o = txt.slice(0, -1);
      // the left side is read first
      let t = e.left; while (ts.isParenthesizedExpression(t) || ts.isNonNullExpression(t)) t = t.expression;
      if (ts.isIdentifier(t)) { const l = yield* this.ev(t, sc); const v = this.num(o, l, yield* this.ev(r, sc)); this.put(t.text, v, sc); return v; }
      const rf = yield* this.ref(t, sc); const l = this.get(rf.o, rf.k); const v = this.num(o, l, yield* this.ev(r, sc)); this.set(rf.o, rf.k, v); return v;
    }
    const l = yield* L(), r = yield* R();
    switch (txt) {
      case "===": return this.eq(l, r); case "!==": return !this.eq(l, r);
      case "==": case "!=": {
        const x = (l === null || l === undefined) && (r === null || r === undefined) ? true : (l === null || l === undefined) ? nullish(r) : (r === null || r === undefined) ? nullish(l) : this.eq(l, r, true);
        return txt === "==" ? x : !x;
      }
      case "<": return this.less(l, r); case "<=": return this.less(l, r, true); case ">": return this.less(r, l); case ">=": return this.less(r, l, true);
    }
    return this.num(txt, l, r);
  }

  // ------------------------------------------------------------------ canonical form of everything the program can reach
  canon(roots) {
    const ids = new Map(), out = [], m = this, queue = [];
    const ref = (v) => {
      if (v === null || v === undefined || typeof v === "boolean" || typeof v === "number" || typeof v === "string" || typeof v === "bigint") return typeof v === "string" ? JSON.stringify(v) : String(v);
      if (v instanceof Sym) return "s:" + v.name;
      if (v instanceof Lin) return "l:" + m.name(v);
      if (typeof v === "symbol") return "symbol";
      if (!ids.has(v)) { ids.set(v, ids.size); queue.push(v); }
      return "#" + ids.get(v);
    };
    const body = (v) => {
      if (v instanceof Scope) { if (v === m.global) return "global"; return "scope{" + [...v.vars].map(([k, b]) => k + ":" + ref(b.v)).join(",") + "}^" + (v.parent ? ref(v.parent) : "") + (v.fn && v.fn.self !== undefined ? "@" + ref(v.fn.self) : ""); }
      if (typeof v === "function") {
        const x = m.meta.get(v);
        if (!x) return "native " + v.name;
        if (x.tag) return x.tag + "(" + x.refs.map(ref) + ")";
        if (x.cls) return "class " + x.cls.pos + " " + ref(x.sc) + "{" + Object.keys(v).map((k) => k + ":" + ref(v[k])) + "}";
        return "fn " + x.node.pos + " " + ref(x.sc);
      }
      if (v instanceof m.Promise0) return "promise " + v.state + " " + ref(v.value) + "[" + v.reactions.map((r) => "(" + r.refs.map(ref) + ")") + "]";
      if (v instanceof Map) return "map{" + [...v].map(([a, b]) => ref(a) + "=>" + ref(b)) + "}";
      if (v instanceof Set) return "set{" + [...v].map(ref) + "}";
      if (v instanceof JText) return "json " + ref(v.v);
      if (v instanceof Handle) return "timer";
      if (v instanceof Zod) return "zod";
      if (Array.isArray(v)) return "[" + v.map(ref) + "]";
      if (v.canonKeys) return v.constructor.name + "{" + v.canonKeys().map(([k, x]) => k + ":" + ref(x)) + "}";
      const p = Object.getPrototypeOf(v);
      const c = p && p !== Object.prototype && p.constructor ? (m.meta.get(p.constructor) ? ref(p.constructor) : p.constructor.name) : "";
      return c + "{" + Object.keys(v).map((k) => k + ":" + ref(v[k])) + "}";
    };
    out.push(roots.map(ref).join(";"));
    while (queue.length) { const v = queue.shift(); out.push(ids.get(v) + "=" + body(v)); }
    return out.join("\n");
  }
}
M.visited = new Set();
M.prototype.depth = 0;

module.exports = { ts, SK, M, Scope, Sym, Lin, JText, Zod, Handle, Undecided, Fork, Thrown };
