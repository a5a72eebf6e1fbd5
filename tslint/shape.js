// Parses generated TypeScript fragments (zod schema expressions, type expressions, whole SDKs) with the
// TypeScript compiler and prints their structure as normalized JSON.  Nothing is executed.
"use strict";
const fs = require("fs");
const path = require("path");
const ts = require(path.join("/opt/veriftools/node/node_modules", "typescript"));
const SK = ts.SyntaxKind;

const enc = (s) => s.replace(/⟨([^⟩]*)⟩/g, (_, m) => "$$m" + Buffer.from(m, "utf8").toString("hex"));
const dec = (id) => (/^\$\$m[0-9a-f]*$/.test(id) ? Buffer.from(id.slice(3), "hex").toString("utf8") : null);
const unmark = (s) => s.replace(/\$\$m([0-9a-f]+)/g, (_, h) => "⟨" + Buffer.from(h, "hex").toString("utf8") + "⟩");

function parse(text) {
  const sf = ts.createSourceFile("x.ts", text, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
  return sf;
}
const diag = (sf) => (sf.parseDiagnostics || []).map((d) => ts.flattenDiagnosticMessageText(d.messageText, " "));

function dotted(e) {
  if (ts.isIdentifier(e)) return e.text;
  if (ts.isPropertyAccessExpression(e)) { const l = dotted(e.expression); return l === null ? null : l + "." + e.name.text; }
  if (ts.isQualifiedName && ts.isQualifiedName(e)) { const l = dotted(e.left); return l === null ? null : l + "." + e.right.text; }
  return null;
}
function propName(n) {
  if (ts.isIdentifier(n)) return n.text;
  if (ts.isStringLiteral(n) || ts.isNumericLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return n.text;
  if (ts.isComputedPropertyName(n) && ts.isStringLiteralLike(n.expression)) return n.expression.text;
  return null;
}
const opt = (x) => (x.k === "opt" ? x : { k: "opt", of: x });
const unk = (n) => ({ k: "unknown", text: unmark(n.getText()) });

function mkAnd(parts) {
  // object intersection: one object with its own keys and the parts whose keys are added
  let props = [], flat = [], any = false;
  for (const p of parts) {
    if (p.k === "obj") { any = true; props.push(...p.props); flat.push(...(p.flat || [])); }
    else flat.push(p);
  }
  if (!any && flat.length === 1) return flat[0];
  const o = { k: "obj", props };
  if (flat.length) o.flat = flat;
  return o;
}
function mkUnion(alts, disc) {
  if (alts.length === 1) return alts[0];
  const o = { k: "union", alts };
  if (disc !== undefined) o.disc = disc;
  return o;
}
function arrow(e) {
  if (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) {
    if (e.parameters.length) return null;
    let b = e.body;
    if (ts.isBlock(b)) {
      if (b.statements.length === 1 && ts.isReturnStatement(b.statements[0]) && b.statements[0].expression) b = b.statements[0].expression;
      else return null;
    }
    return b;
  }
  return null;
}
function num(e) {
  if (ts.isNumericLiteral(e)) return e.getText();
  if (ts.isPrefixUnaryExpression(e) && e.operator === SK.MinusToken && ts.isNumericLiteral(e.operand)) return "-" + e.operand.getText();
  if (ts.isBigIntLiteral && ts.isBigIntLiteral(e)) return e.getText();
  return null;
}
function argv(e) {
  const n = num(e);
  if (n !== null) return { n };
  if (ts.isStringLiteralLike(e)) return e.text;
  if (ts.isRegularExpressionLiteral(e)) {
    const m = /^\/([\s\S]*)\/([a-z]*)$/.exec(e.text);
    try { return { regex: e.text, admits: (input.texts || []).filter((t) => new RegExp(m[1], m[2].replace("g", "").replace("y", "")).test(t)) }; } catch { return { text: e.text }; }
  }
  if (ts.isObjectLiteralExpression(e)) {
    const o = {};
    for (const p of e.properties) if (ts.isPropertyAssignment(p)) o[propName(p.name)] = argv(p.initializer);
    return o;
  }
  if (e.kind === SK.TrueKeyword) return true;
  if (e.kind === SK.FalseKeyword) return false;
  return { text: unmark(e.getText()) };
}
const strip = (e) => {
  while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(e)) || ts.isNonNullExpression(e)) e = e.expression;
  return e;
};

function schema(e, z = "z") {
  const S = (x) => schema(x, z);
  e = strip(e);
  if (ts.isIdentifier(e)) {
    const m = dec(e.text);
    if (m !== null) return { k: "atom", v: m };
    return { k: "ref", v: e.text };
  }
  if (ts.isPropertyAccessExpression(e)) {
    const d = dotted(e);
    if (d !== null) return { k: "ref", v: unmark(d) };
    return unk(e);
  }
  if (!ts.isCallExpression(e)) return unk(e);
  const args = e.arguments;
  const callee = strip(e.expression);
  if (!ts.isPropertyAccessExpression(callee)) return unk(e);
  const name = callee.name.text;
  const base = strip(callee.expression);
  if (ts.isIdentifier(base) && base.text === z) {
    const list = (a) => (a && ts.isArrayLiteralExpression(strip(a)) ? strip(a).elements.map(S) : null);
    switch (name) {
      case "object": case "strictObject": case "looseObject": {
        const o = args[0] && strip(args[0]);
        if (!o || !ts.isObjectLiteralExpression(o)) return unk(e);
        const props = [], flat = [];
        for (const p of o.properties) {
          if (ts.isPropertyAssignment(p)) {
            const n = propName(p.name);
            if (n === null) return unk(e);
            props.push([unmark(n), S(p.initializer)]);
          } else if (ts.isShorthandPropertyAssignment(p)) props.push([p.name.text, { k: "ref", v: p.name.text }]);
          else if (ts.isSpreadAssignment(p)) {
            let b = strip(p.expression);
            if (ts.isPropertyAccessExpression(b) && b.name.text === "shape") flat.push(S(b.expression)); else return unk(e);
          } else return unk(e);
        }
        const r = { k: "obj", props };
        if (flat.length) r.flat = flat;
        return name === "object" ? r : { k: "mod", m: name, of: r };
      }
      case "union": { const l = list(args[0]); return l ? mkUnion(l) : unk(e); }
      case "discriminatedUnion": {
        const l = list(args[1]);
        if (!l || !ts.isStringLiteralLike(args[0])) return unk(e);
        return { k: "union", alts: l, disc: unmark(args[0].text) };
      }
      case "tuple": { const l = list(args[0]); return l ? { k: "tuple", items: l } : unk(e); }
      case "array": return args.length === 1 ? { k: "array", of: S(args[0]) } : unk(e);
      case "set": return args.length === 1 ? { k: "set", of: S(args[0]) } : unk(e);
      case "map": return args.length === 2 ? { k: "map", key: S(args[0]), val: S(args[1]) } : unk(e);
      case "record": return args.length === 2 ? { k: "record", key: S(args[0]), val: S(args[1]) } : unk(e);
      case "literal": {
        const a = args[0] && strip(args[0]);
        if (!a) return unk(e);
        if (ts.isStringLiteralLike(a)) return { k: "lit", v: unmark(a.text) };
        if (a.kind === SK.NullKeyword) return { k: "null" };
        return { k: "lit", v: argv(a) };
      }
      case "enum": { const a = args[0] && strip(args[0]); return a && ts.isArrayLiteralExpression(a) ? mkUnion(a.elements.map((x) => (ts.isStringLiteralLike(x) ? { k: "lit", v: unmark(x.text) } : unk(x)))) : unk(e); }
      case "lazy": { const b = args[0] && arrow(strip(args[0])); return b ? { k: "lazy", of: S(b) } : unk(e); }
      case "optional": return args.length === 1 ? opt(S(args[0])) : unk(e);
      case "intersection": return args.length === 2 ? mkAnd([S(args[0]), S(args[1])]) : unk(e);
      case "null": case "undefined": case "boolean": case "any": case "unknown": case "never": case "void": return { k: name };
      case "string": case "number": case "bigint": return { k: name, checks: args.length ? [["options", args.map(argv)]] : [] };
      default: return { k: "call", name: "z." + name, args: args.map(argv) };
    }
  }
  const b = S(base);
  switch (name) {
    case "optional": return opt(b);
    case "extend": {
      const a = args[0] && strip(args[0]);
      if (a && ts.isObjectLiteralExpression(a)) return mkAnd([b, S(ts.factory ? callObj(a) : a)]);
      if (!a) return unk(e);
      return mkAnd([b, S(a)]);
    }
    case "merge": case "and": return args.length === 1 ? mkAnd([b, S(args[0])]) : unk(e);
    case "or": return args.length === 1 ? mkUnion([...(b.k === "union" && !b.disc ? b.alts : [b]), S(args[0])]) : unk(e);
    case "array": return { k: "array", of: b };
    case "nullable": return { k: "nullable", of: b };
    case "nullish": return opt({ k: "nullable", of: b });
    case "strip": case "describe": case "readonly": case "brand": return b;
  }
  if ((b.k === "string" || b.k === "number" || b.k === "bigint") && b.checks) return { k: b.k, checks: [...b.checks, [name, args.map(argv)]] };
  return { k: "mod", m: name, args: args.map(argv), of: b };
}
function callObj(o) {
  // an object literal used as raw shape behaves like z.object of it
  return { __raw: o };
}
const schema0 = schema;
schema = function (e, z = "z") {
  if (e && e.__raw) {
    const props = [];
    for (const p of e.__raw.properties) {
      const n = p.name && propName(p.name);
      if (!ts.isPropertyAssignment(p) || n === null) return { k: "unknown", text: unmark(e.__raw.getText()) };
      props.push([unmark(n), schema0(p.initializer, z)]);
    }
    return { k: "obj", props };
  }
  return schema0(e, z);
};

function members(ms) {
  const props = [];
  for (const m of ms) {
    if (!ts.isPropertySignature(m) || !m.type) return null;
    const n = propName(m.name);
    if (n === null) return null;
    let t = type(m.type);
    const q = !!m.questionToken;
    if (q) t = opt(t);
    props.push([unmark(n), t, q]);
  }
  return props;
}
function type(t) {
  switch (t.kind) {
    case SK.ParenthesizedType: return type(t.type);
    case SK.StringKeyword: return { k: "string" };
    case SK.NumberKeyword: return { k: "number" };
    case SK.BooleanKeyword: return { k: "boolean" };
    case SK.BigIntKeyword: return { k: "bigint" };
    case SK.UndefinedKeyword: return { k: "undefined" };
    case SK.AnyKeyword: return { k: "any" };
    case SK.UnknownKeyword: return { k: "unknown_t" };
    case SK.NeverKeyword: return { k: "never" };
    case SK.VoidKeyword: return { k: "void" };
    case SK.LiteralType: {
      const l = t.literal;
      if (l.kind === SK.NullKeyword) return { k: "null" };
      if (ts.isStringLiteralLike(l)) return { k: "lit", v: unmark(l.text) };
      return { k: "lit", v: argv(l) };
    }
    case SK.TypeLiteral: { const p = members(t.members); return p ? { k: "obj", props: p } : unk(t); }
    case SK.ArrayType: return { k: "array", of: type(t.elementType) };
    case SK.TupleType: return { k: "tuple", items: t.elements.map((x) => {
      if (ts.isNamedTupleMember(x)) { const y = type(x.type); return x.questionToken ? opt(y) : y; }
      if (x.kind === SK.OptionalType) return opt(type(x.type));
      return type(x); }) };
    case SK.TypeOperator: if (t.operator === SK.ReadonlyKeyword) return type(t.type); return unk(t);
    case SK.UnionType: {
      let alts = [], u = false;
      for (const x of t.types) {
        const y = type(x);
        if (y.k === "undefined") u = true;
        else if (y.k === "union") alts.push(...y.alts);
        else if (y.k === "opt") { u = true; if (y.of.k === "union") alts.push(...y.of.alts); else alts.push(y.of); }
        else alts.push(y);
      }
      const b = mkUnion(alts);
      return u ? opt(b) : b;
    }
    case SK.IntersectionType: return mkAnd(t.types.map(type));
    case SK.TypeReference: {
      const n = dotted(t.typeName);
      const a = (t.typeArguments || []).map(type);
      if (n !== null) {
        const m = dec(n);
        if (m !== null) return { k: "atom", v: m };
        if ((n === "Array" || n === "ReadonlyArray") && a.length === 1) return { k: "array", of: a[0] };
        if ((n === "Set" || n === "ReadonlySet") && a.length === 1) return { k: "set", of: a[0] };
        if ((n === "Map" || n === "ReadonlyMap") && a.length === 2) return { k: "map", key: a[0], val: a[1] };
        if (n === "Record" && a.length === 2) return { k: "record", key: a[0], val: a[1] };
        if (a.length === 0) return { k: "ref", v: unmark(n) };
        return { k: "generic", name: n, args: a };
      }
      return unk(t);
    }
  }
  return unk(t);
}

function leadingDoc(sf, node) {
  const full = sf.text;
  const r = ts.getLeadingCommentRanges(full, node.getFullStart()) || [];
  return r.map((c) => unmark(full.slice(c.pos, c.end)));
}
function fnInfo(sf, f) {
  return {
    kind: "function", name: f.name && unmark(f.name.text),
    exported: (f.modifiers || []).some((m) => m.kind === SK.ExportKeyword),
    async: (f.modifiers || []).some((m) => m.kind === SK.AsyncKeyword),
    params: f.parameters.map((p) => ({ name: unmark(p.name.getText()), type: p.type ? type(p.type) : null, optional: !!p.questionToken, rest: !!p.dotDotDotToken })),
    ret: f.type ? type(f.type) : null,
    body: f.body ? fnBody(f) : null,
  };
}
// what a generated client function does: for every statement the calls it makes, with the binding of
// the names they use
function fnBody(f) {
  const params = new Set(f.parameters.map((p) => p.name.getText()));
  const locals = new Set();
  const out = [];
  function visit(n) {
    if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name)) locals.add(n.name.text);
    if (ts.isFunctionDeclaration(n) && n.name) locals.add(n.name.text);
    ts.forEachChild(n, visit);
  }
  visit(f.body);
  const self = f.name && f.name.text;
  const free = (id) => !params.has(id) && !locals.has(id);
  for (const st of f.body.statements) {
    const o = { text: unmark(st.getText()) };
    let e = ts.isExpressionStatement(st) ? st.expression : ts.isReturnStatement(st) ? st.expression : null;
    o.ret = ts.isReturnStatement(st);
    if (e) { e = strip(e); if (ts.isAwaitExpression(e)) e = strip(e.expression); }
    if (e && ts.isIdentifier(e)) o.ident = e.text;
    if (e && ts.isCallExpression(e)) {
      const c = strip(e.expression);
      if (ts.isPropertyAccessExpression(c) && (c.name.text === "parse" || c.name.text === "parseAsync")) {
        o.call = "parse";
        const zroot = rootIdent(c.expression);
        o.schema = schema(c.expression);
        o.root = zroot; o.rootFree = zroot !== null && free(zroot) && zroot !== self;
        o.args = e.arguments.map((a) => argRef(a, free));
      } else if (ts.isIdentifier(c)) {
        o.call = c.text; o.root = c.text; o.rootFree = free(c.text) && c.text !== self;
        o.targs = (e.typeArguments || []).map(type);
        o.args = e.arguments.map((a) => argRef(a, free));
      }
    }
    out.push(o);
  }
  return out;
}
function rootIdent(e) {
  e = strip(e);
  if (ts.isIdentifier(e)) return e.text;
  if (ts.isPropertyAccessExpression(e)) return rootIdent(e.expression);
  if (ts.isCallExpression(e)) return rootIdent(e.expression);
  return null;
}
function argRef(a, free) {
  a = strip(a);
  if (ts.isStringLiteralLike(a)) return { str: unmark(a.text) };
  if (ts.isIdentifier(a)) return { ident: unmark(a.text), free: free(a.text) };
  if (ts.isArrayLiteralExpression(a)) return { list: a.elements.map((x) => (ts.isSpreadElement(x) ? { spread: argRef(x.expression, free) } : argRef(x, free))) };
  return { text: unmark(a.getText()) };
}

function block(sf, stmts) {
  const out = [];
  for (const st of stmts) {
    const docs = leadingDoc(sf, st);
    const exported = (st.modifiers || []).some((m) => m.kind === SK.ExportKeyword);
    if (ts.isModuleDeclaration(st)) {
      out.push({ kind: "namespace", exported, name: unmark(st.name.text), docs, items: st.body && ts.isModuleBlock(st.body) ? block(sf, st.body.statements) : [] });
    } else if (ts.isVariableStatement(st)) {
      for (const d of st.declarationList.declarations)
        out.push({ kind: "const", exported, name: unmark(d.name.getText()), docs, schema: d.initializer ? schema(d.initializer) : null });
    } else if (ts.isTypeAliasDeclaration(st)) {
      out.push({ kind: "type", exported, name: unmark(st.name.text), docs, type: type(st.type), generic: !!st.typeParameters });
    } else if (ts.isInterfaceDeclaration(st)) {
      const p = members(st.members);
      let t = p ? { k: "obj", props: p } : unk(st);
      if (st.heritageClauses) t = mkAnd([t, ...st.heritageClauses.flatMap((h) => h.types.map((x) => ({ k: "ref", v: x.getText() })))]);
      out.push({ kind: "type", interface: true, exported, name: unmark(st.name.text), docs, type: t });
    } else if (ts.isFunctionDeclaration(st)) {
      out.push(Object.assign(fnInfo(sf, st), { docs }));
    } else if (st.kind === SK.EmptyStatement) {
    } else out.push({ kind: "other", text: unmark(st.getText()).slice(0, 200), docs });
  }
  return out;
}

function one(j) {
  const text = enc(j.text);
  if (j.kind === "schema") {
    const sf = parse("(" + text + "\n)");
    const d = diag(sf);
    if (d.length) return { error: d };
    if (sf.statements.length !== 1 || !ts.isExpressionStatement(sf.statements[0])) return { error: ["not one expression"] };
    return { shape: schema(sf.statements[0].expression) };
  }
  if (j.kind === "type") {
    const sf = parse("type X = " + text + "\n;");
    const d = diag(sf);
    if (d.length) return { error: d };
    if (sf.statements.filter((s) => s.kind !== SK.EmptyStatement).length !== 1) return { error: ["not one type"] };
    return { shape: type(sf.statements[0].type) };
  }
  if (j.kind === "interface") {
    const sf = parse("interface X " + text + "\n");
    const d = diag(sf);
    if (d.length) return { error: d };
    const st = sf.statements.filter((s) => s.kind !== SK.EmptyStatement);
    if (st.length !== 1) return { error: ["not one interface"] };
    const p = members(st[0].members);
    return { shape: p ? { k: "obj", props: p } : unk(st[0]) };
  }
  if (j.kind === "comment") {
    // documentation emitted in front of a declaration
    const sf = parse(text + "export const X = 1;");
    const d = diag(sf);
    if (d.length) return { error: d };
    const st = sf.statements.filter((s) => s.kind !== SK.EmptyStatement);
    if (st.length !== 1 || !ts.isVariableStatement(st[0])) return { error: ["documentation is not only a comment"] };
    return { comments: leadingDoc(sf, st[0]) };
  }
  if (j.kind === "sdk") {
    const sf = parse(text);
    const d = diag(sf);
    return { errors: d, items: block(sf, sf.statements) };
  }
  return { error: ["kind"] };
}

// ---------------------------------------------------------------- type checking against zod's declarations
// where every name used inside a namespace block is declared
function bindings(prog, sf) {
  const checker = prog.getTypeChecker();
  const out = [];
  function isRef(id) {
    const p = id.parent;
    if (ts.isPropertyAccessExpression(p)) return p.expression === id;
    if (ts.isQualifiedName(p)) return p.left === id;
    if (p.name === id && !ts.isShorthandPropertyAssignment(p)) return false;
    if (ts.isPropertyAssignment(p) && p.name === id) return false;
    if (ts.isLabeledStatement(p) || ts.isBreakOrContinueStatement(p)) return false;
    return true;
  }
  function where(sym) {
    if (!sym) return "unresolved";
    if (sym.name === "arguments" && !(sym.declarations || []).length) return "arguments";
    const d = (sym.declarations || []);
    if (!d.length) return sym.name === "undefined" ? "lib" : "unresolved";
    const w = d.map((x) => {
      if (x.getSourceFile() !== sf) return "lib";
      if (ts.isImportSpecifier(x) || ts.isImportClause(x) || ts.isNamespaceImport(x)) return "import";
      for (let y = x.parent; y; y = y.parent) {
        if (ts.isFunctionLike(y)) return ts.isParameter(x) && x.parent === y ? "param" : "local";
        if (ts.isModuleBlock(y)) return "member of " + y.parent.name.text;
      }
      return "top";
    });
    return w.includes("top") ? "top" : w[0];
  }
  function use(id) {
    const p = id.parent;
    if (ts.isExpressionStatement(p)) return "bare";
    if ((ts.isCallExpression(p) || ts.isNewExpression(p)) && p.expression === id) return "callee";
    if (ts.isPropertyAccessExpression(p) || ts.isElementAccessExpression(p)) return p.expression === id ? "root" : "value";
    if (ts.isQualifiedName(p) || ts.isTypeReferenceNode(p) || ts.isExpressionWithTypeArguments(p)) return "type";
    return "value";
  }
  function walk(n, ns, decl) {
    if (ts.isIdentifier(n)) {
      if (isRef(n)) {
        const sym = checker.getSymbolAtLocation(n);
        out.push({ ns: unmark(ns), decl: unmark(decl), name: unmark(n.text), use: use(n), where: unmark(where(sym)), line: sf.getLineAndCharacterOfPosition(n.getStart()).line + 1 });
      }
      return;
    }
    ts.forEachChild(n, (c) => walk(c, ns, decl));
  }
  function block(b, ns) {
    for (const st of b.statements) {
      if (ts.isModuleDeclaration(st) && st.body && ts.isModuleBlock(st.body)) { block(st.body, st.name.text); continue; }
      let nm = st.name ? st.name.text : ts.isVariableStatement(st) ? (st.declarationList.declarations[0] ? st.declarationList.declarations[0].name.getText() : "?") : "?";
      walk(st, ns, nm);
    }
  }
  for (const st of sf.statements) if (ts.isModuleDeclaration(st) && st.body && ts.isModuleBlock(st.body)) block(st.body, st.name.text);
  return out;
}

function check(files, opts, binds) {
  const root = "/virtual";
  const vf = new Map(Object.entries(files).map(([k, v]) => [path.join(root, k), v]));
  const options = Object.assign({ strict: true, noEmit: true, target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext,
    moduleResolution: ts.ModuleResolutionKind.Bundler, skipLibCheck: true, types: [], lib: ["lib.es2022.d.ts", "lib.dom.d.ts", "lib.dom.iterable.d.ts"],
    paths: { zod: ["/opt/veriftools/node/node_modules/zod/v3/index.d.ts"] } }, opts || {});
  const host = ts.createCompilerHost(options);
  const rf = host.readFile.bind(host), fe = host.fileExists.bind(host), gs = host.getSourceFile.bind(host);
  host.fileExists = (f) => vf.has(f) || fe(f);
  host.readFile = (f) => (vf.has(f) ? vf.get(f) : rf(f));
  host.getSourceFile = (f, l, ...r) => (vf.has(f) ? ts.createSourceFile(f, vf.get(f), l, true) : gs(f, l, ...r));
  const prog = ts.createProgram([...vf.keys()], options, host);
  const out = [];
  if (binds) for (const f of vf.keys()) binds[path.basename(f)] = bindings(prog, prog.getSourceFile(f));
  for (const f of vf.keys()) {
    const sf = prog.getSourceFile(f);
    for (const d of [...prog.getSyntacticDiagnostics(sf), ...prog.getSemanticDiagnostics(sf)]) {
      const lc = sf.getLineAndCharacterOfPosition(d.start || 0);
      let n = null;
      (function find(x) { if (x.getStart() <= d.start && d.start + d.length <= x.getEnd()) { n = x; ts.forEachChild(x, find); } })(sf);
      let anc = [];
      for (let x = n; x && anc.length < 4; x = x.parent) anc.push(unmark(x.getText()).slice(0, 4000));
      out.push({ file: path.basename(f), line: lc.line + 1, col: lc.character, code: d.code, message: unmark(ts.flattenDiagnosticMessageText(d.messageText, " ")).slice(0, 400), node: anc[0], parent: anc[1] });
    }
  }
  return out;
}

const input = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const res = {};
if (input.jobs) res.results = input.jobs.map((j) => { try { return Object.assign({ id: j.id }, one(j)); } catch (e) { return { id: j.id, error: ["internal " + e.stack] }; } });
if (input.check) {
  const files = {};
  for (const [k, v] of Object.entries(input.check.files)) files[k] = enc(v);
  if (input.check.bind) res.bind = {};
  res.check = check(files, input.check.options, res.bind);
}
fs.writeFileSync(process.argv[3], JSON.stringify(res));
