// Grammar-directed generator of ECMAScript 2019 programs, as token lists.
// A token is a string, or {t, nl:false} when no line terminator may stand
// before it (restricted productions). ';' tokens carry {asi:true} where
// automatic semicolon insertion may supply them.
const NL0 = t => ({ t, nl: false });
export const text = tok => typeof tok === 'string' ? tok : tok.t;

const KW = ['break', 'case', 'catch', 'class', 'const', 'continue', 'debugger', 'default', 'delete', 'do', 'else', 'export', 'extends', 'finally', 'for', 'function', 'if', 'import', 'in', 'instanceof', 'new', 'return', 'super', 'switch', 'this', 'throw', 'try', 'typeof', 'var', 'void', 'while', 'with', 'enum', 'null', 'true', 'false'];
export const RESERVED = new Set(KW);
const STRICT_RES = ['implements', 'interface', 'package', 'private', 'protected', 'public', 'static', 'let', 'yield'];
const PLAIN = ['a', 'b', 'c', 'x', 'y', 'foo', 'bar', '$', '_', '$1', '_z', 'Foo', 'obj', 'k9', 'longIdentifierName', 'o', 'i', 'e', 'ofx', 'inn', 'newt', 'doo', 'iff', 'varx', 'nul', 'nullx', 'truex', 'functio', 'instanceofx'];
const CTXKW = ['get', 'set', 'of', 'from', 'as', 'target', 'async', 'constructor', 'prototype', 'undefined', 'NaN', 'meta', 'eval', 'arguments'];
const UNI = ['é', 'ñandú', 'π', 'переменная', '变量', 'ℵ', 'ªº', 'a\u0301', 'x\u200c', 'y\u200d', '𠮷', 'a𝒳', '℘', 'Ⅷ', 'ゝ', 'a·'];

export const DEFAULT = {
  size: 40, depth: 5, module: false,
  uni: 0.04, escId: 0.02, ctxkw: 0.08,
  stmts: [1, 6],
  // statement weights
  s: { expr: 10, var: 4, lex: 4, block: 1.5, empty: 0.5, if: 2, for: 2, forin: 1, forof: 1, while: 1, dowhile: 1, switch: 1, continue: 1, break: 1, return: 2, with: 0.4, label: 0.7, throw: 0.6, try: 1, debugger: 0.3, func: 2, gen: 0.8, asyncfn: 0.8, asyncgen: 0.4, class: 1, use: 0.15 },
  // expression weights
  e: { bin: 5, cond: 1.2, assign: 2, pattAssign: 0.6, arrow: 1.5, asyncArrow: 0.5, yield: 1.5, seq: 0 },
  // primary weights
  p: { id: 10, num: 3, str: 2.5, tmpl: 0.8, regex: 0.6, kwlit: 1, this: 0.7, array: 1.5, object: 1.8, func: 0.8, gen: 0.3, asyncfn: 0.3, asyncgen: 0.15, class: 0.4, paren: 1.5 },
  unary: 0.18, update: 0.07, chain: 0.35, newx: 0.06,
  num: null, str: null, tmplText: null, regexText: null,
};

export class Gen {
  constructor(rng, opts = {}) {
    this.r = rng;
    this.o = { ...DEFAULT, ...opts, s: { ...DEFAULT.s, ...(opts.s || {}) }, e: { ...DEFAULT.e, ...(opts.e || {}) }, p: { ...DEFAULT.p, ...(opts.p || {}) } };
    this.fresh = 0;
    this.budget = this.o.size;
  }

  program() {
    const r = this.r;
    const ctx = { strict: this.o.module, module: this.o.module, yield: false, await: false, ret: false, loop: false, sw: false, labels: [], in: true, sprop: false, scall: false, nt: false, d: this.o.depth, top: true };
    this.exportNames = new Set();
    const out = [];
    if (!ctx.strict && r.p(this.o.s.use)) { out.push(...this.directive()); if (this.lastStrict) ctx.strict = true; }
    const n = r.range(...this.o.stmts);
    for (let i = 0; i < n && this.budget > -50; i++) {
      if (ctx.module && r.p(this.o.modItem ?? 0.35)) out.push(...this.moduleItem(ctx));
      else out.push(...this.item(ctx));
    }
    return out;
  }
  directive() {
    const r = this.r; const out = []; this.lastStrict = false;
    const n = r.w([[6, 1], [2, 2], [1, 3]]);
    for (let i = 0; i < n; i++) {
      const s = r.w([[5, "'use strict'"], [5, '"use strict"'], [1, "'use asm'"], [1, '"x"'], [1, "'use\\x20strict'"], [1, '"use strict "'], [1, "'use stric\\\nt'"]]);
      if (s === "'use strict'" || s === '"use strict"') this.lastStrict = true;
      out.push(s, this.semi());
    }
    return out;
  }
  semi() { return { t: ';', asi: true }; }
  spend(n = 1) { this.budget -= n; }
  low(ctx) { return ctx.d <= 0 || this.budget <= 0; }
  deeper(ctx, x = {}) { return { ...ctx, top: false, d: ctx.d - 1, ...x }; }

  // ------------------------------------------------------------ identifiers
  escId(n) {
    const r = this.r; const cs = [...n];
    const i = r.int(cs.length); const cp = cs[i].codePointAt(0);
    const hex = cp.toString(16);
    cs[i] = cp > 0xffff || r.p(0.5) ? `\\u{${r.p(0.3) ? '000' : ''}${r.p(0.5) ? hex.toUpperCase() : hex}}` : `\\u${hex.padStart(4, '0')}`;
    return cs.join('');
  }
  plainName(ctx) {
    const r = this.r, o = this.o;
    if (r.p(o.uni)) return r.pick(UNI);
    if (r.p(o.ctxkw)) {
      let c = CTXKW;
      if (!ctx.strict) c = c.concat(STRICT_RES.filter(x => x !== 'let' && (x !== 'yield' || !ctx.yield)));
      if (!ctx.await && !ctx.module) c = c.concat(['await']);
      const n = r.pick(c);
      if (ctx.strict && (n === 'eval' || n === 'arguments') && ctx.binding) return 'q';
      return n;
    }
    return r.pick(PLAIN);
  }
  ref(ctx) { const n = this.plainName(ctx); return this.r.p(this.o.escId) && n !== 'async' && n !== 'await' && n !== 'yield' && n !== 'let' ? this.escId(n) : n; }
  bindName(ctx) {
    const r = this.r;
    if (r.p(0.6)) return r.pick(['v', 'w', 't', 'n']) + (this.fresh++);
    const n = this.plainName({ ...ctx, binding: true });
    return r.p(this.o.escId) && n !== 'await' && n !== 'yield' ? this.escId(n) : n;
  }
  propName() { const r = this.r; return r.p(0.25) ? r.pick(KW.concat(STRICT_RES, ['await', 'async', 'get', 'set', 'of', 'constructor', 'static'])) : r.p(0.06) ? this.escId(r.pick(PLAIN)) : r.p(0.05) ? r.pick(UNI) : r.pick(PLAIN); }

  // ------------------------------------------------------------ literals
  number(ctx) {
    if (this.o.num) return this.o.num(this, ctx);
    const r = this.r;
    return r.w([[6, String(r.int(10))], [3, String(r.int(1e6))], [1, r.int(100) + '.' + r.int(1000)], [1, '.' + r.int(1000)], [1, r.int(50) + '.'], [1, r.int(50) + 'e' + r.pick(['', '+', '-']) + r.int(30)], [1, '0x' + r.int(1e9).toString(16)], [0.5, '0b' + r.int(1000).toString(2)], [0.5, '0O' + r.int(1000).toString(8)]]);
  }
  string(ctx) {
    if (this.o.str) return this.o.str(this, ctx);
    const r = this.r; const q = r.pick(['"', "'"]);
    const n = r.int(6); let s = '';
    for (let i = 0; i < n; i++) s += r.w([[8, r.pick(['a', 'b', ' ', 'z', '0', '/', '{', '}', '(', ';', '//', '/*', '`', '${', 'é', '😀'])], [1, '\\n'], [0.7, '\\\\'], [0.7, '\\' + q], [0.5, '\\x41'], [0.5, '\\u0042'], [0.3, '\\u{1F600}'], [0.3, '\\\n'], [0.4, q === '"' ? "'" : '"'], [0.2, '\u2028'], [0.2, '\\0']]);
    return q + s + q;
  }
  regex() {
    if (this.o.regexText) return this.o.regexText(this);
    const r = this.r; let s = ''; const n = r.range(1, 4);
    for (let i = 0; i < n; i++) s += r.w([[5, r.pick(['a', 'b+', 'c*?', '.', '\\d', '\\w+', '^x', 'y$', '=', '"', "'", '`', ' '])], [1, '[abc]'], [1, '[/]'], [0.7, '[^\\]/]'], [1, '\\/'], [0.7, '(?:x|y)'], [0.5, 'z{2,3}'], [0.4, '[[]'], [0.4, '\\\\'], [0.3, '\\[']]);
    return '/' + s + '/' + r.pick(['', '', '', 'g', 'i', 'gi', 'm', 'y', 'gimy']);
  }
  tmplText() {
    if (this.o.tmplText) return this.o.tmplText(this);
    const r = this.r; let s = ''; const n = r.int(4);
    for (let i = 0; i < n; i++) s += r.w([[6, r.pick(['a', ' ', '$', '{', '}', '"', "'", '//', 'z', '\n', '$$', '/'])], [1, '\\`'], [1, '\\$'], [1, '\\n'], [0.5, '\\u{41}'], [0.5, '\\x42'], [0.4, '\\\\'], [0.3, '\\\n'], [0.2, '\r\n']]);
    return s.replace(/\$+\{/g, '$ {').replace(/\$$/, '');
  }
  template(ctx) {
    const r = this.r; const n = this.low(ctx) ? 0 : r.w([[5, 0], [4, 1], [2, 2], [1, 3]]);
    if (n === 0) return ['`' + this.tmplText() + '`'];
    const out = ['`' + this.tmplText() + '${'];
    for (let i = 0; i < n; i++) {
      out.push(...this.expression(this.deeper(ctx, { in: true })));
      out.push('}' + this.tmplText() + (i === n - 1 ? '`' : '${'));
    }
    return out;
  }

  // ------------------------------------------------------------ expressions
  expression(ctx) {
    if (!this.low(ctx) && this.r.p(0.06)) {
      const out = this.assign(ctx); const n = this.r.range(1, 2);
      for (let i = 0; i < n; i++) out.push(',', ...this.assign(ctx));
      return out;
    }
    return this.assign(ctx);
  }
  assign(ctx) {
    this.spend();
    const r = this.r, e = this.o.e;
    if (this.low(ctx)) return this.unaryE(ctx);
    const k = r.w([[e.bin, 'bin'], [e.cond, 'cond'], [e.assign, 'assign'], [e.pattAssign, 'patt'], [e.arrow, 'arrow'], [e.asyncArrow, 'aarrow'], [ctx.yield ? e.yield : 0, 'yield']]);
    const c = this.deeper(ctx);
    switch (k) {
      case 'bin': return this.binary(c);
      case 'cond': return [...this.binary(c), '?', ...this.assign({ ...c, in: true }), ':', ...this.assign(c)];
      case 'assign': return [...this.target(c), r.w([[6, '='], [4, r.pick(['+=', '-=', '*=', '/=', '%=', '**=', '<<=', '>>=', '>>>=', '&=', '|=', '^='])]]), ...this.assign(c)];
      case 'patt': return [...this.assignPattern(c), '=', ...this.assign(c)];
      case 'arrow': return this.arrow(c, false);
      case 'aarrow': return this.arrow(c, true);
      case 'yield': {
        const m = r.int(4);
        if (m === 0) return ['yield', ...(r.p(0.0) ? [] : [])].concat([]).concat(this.o.yieldBare === false ? [NL0('0')] : []);
        if (m === 1) return ['yield', NL0('*'), ...this.assign(c)];
        const a = this.assign(c); return ['yield', NL0(text(a[0])), ...a.slice(1)];
      }
    }
  }
  arrow(ctx, isAsync) {
    const r = this.r;
    const pc = { ...ctx, await: isAsync || ctx.await, in: true };
    const out = [];
    if (isAsync) out.push('async');
    let simple = true;
    if (r.p(0.4)) { const n = this.bindName({ ...pc }); out.push(isAsync ? NL0(n) : n); }
    else {
      const ps = this.params({ ...pc, uniq: true }); simple = this.simpleParams;
      out.push(isAsync ? NL0('(') : '(', ...ps.slice(1));
    }
    out.push(NL0('=>'));
    // `await` inside an arrow's body follows the arrow; `yield` never carries over.
    const bc = { ...ctx, await: isAsync, yield: false };
    if (r.p(0.35)) out.push(...this.fnBody({ ...bc, in: true }, simple));
    else {
      let b = this.assign(bc);
      if (text(b[0]) === '{') b = ['(', ...b, ')'];
      out.push(...b);
    }
    return out;
  }
  binary(ctx) {
    const r = this.r;
    const n = this.low(ctx) ? 0 : r.w([[5, 0], [4, 1], [2, 2], [1, 3], [0.6, 5]]);
    const ops = ['+', '-', '*', '/', '%', '**', '<', '>', '<=', '>=', '==', '!=', '===', '!==', '<<', '>>', '>>>', '&', '|', '^', '&&', '||', 'instanceof', 'in'];
    let out = [], op = null;
    for (let i = 0; i <= n; i++) {
      let next = null;
      if (i < n) { next = r.pick(ops); if (next === 'in' && !ctx.in) next = '+'; }
      out.push(...(next === '**' ? this.updateE(ctx) : this.unaryE(ctx)));
      if (next) out.push(next);
    }
    return out;
  }
  unaryE(ctx) {
    const r = this.r;
    if (!this.low(ctx) && r.p(this.o.unary)) {
      const c = this.deeper(ctx);
      if (ctx.await && r.p(0.4)) return ['await', ...this.unaryE(c)];
      const op = r.pick(['+', '-', '~', '!', 'typeof', 'void', 'delete']);
      if (op === 'delete' && ctx.strict) return ['delete', ...this.target({ ...c, memberOnly: true })];
      return [op, ...this.unaryE(c)];
    }
    return this.updateE(ctx);
  }
  updateE(ctx) {
    const r = this.r;
    if (!this.low(ctx) && r.p(this.o.update)) {
      const c = this.deeper(ctx);
      return r.p(0.5) ? [r.pick(['++', '--']), ...this.target(c)] : [...this.target(c), NL0(r.pick(['++', '--']))];
    }
    return this.lhs(ctx);
  }
  // simple assignment target
  target(ctx) {
    const r = this.r;
    if (!ctx.memberOnly && r.p(0.55)) {
      let n = this.ref(ctx);
      if (ctx.strict && /^(eval|arguments)$/.test(n)) n = 'q';
      return r.p(0.06) ? ['(', n, ')'] : [n];
    }
    const m = [...this.lhs({ ...this.deeper(ctx), memberOnly: false }, true), ...this.memberTail(ctx)];
    return m;
  }
  memberTail(ctx) {
    const r = this.r;
    if (r.p(0.6) || this.low(ctx)) return ['.', this.propName()];
    return ['[', ...this.expression(this.deeper(ctx, { in: true })), ']'];
  }
  lhs(ctx, objectOnly = false) {
    const r = this.r;
    if (!this.low(ctx) && r.p(this.o.newx)) return this.newExpr(this.deeper(ctx));
    let out;
    if (ctx.sprop && r.p(0.15)) out = ['super', ...this.memberTail(ctx)];
    else if (ctx.scall && r.p(0.15)) out = ['super', ...this.args(ctx)];
    else if (ctx.nt && r.p(0.05)) out = ['new', '.', 'target'];
    else out = this.primary(ctx, objectOnly);
    while (!this.low(ctx) && r.p(this.o.chain)) {
      this.spend();
      out.push(...r.w([[4, 'm'], [3, 'c'], [0.5, 't']]) === 'm' ? this.memberTail(ctx) : []);
      const k = r.w([[3, 'c'], [0.4, 't'], [4, '']]);
      if (k === 'c') out.push(...this.args(ctx)); else if (k === 't') out.push(...this.template(ctx));
    }
    return out;
  }
  newExpr(ctx) {
    const r = this.r;
    let callee;
    if (r.p(0.15)) callee = this.newExpr(this.deeper(ctx));
    else {
      callee = this.primary(ctx, true);
      while (r.p(0.35)) callee.push(...this.memberTail(ctx));
    }
    const out = ['new', ...callee];
    if (r.p(0.75)) out.push(...this.args(ctx));
    return out;
  }
  args(ctx) {
    const r = this.r; const out = ['(']; const c = this.deeper(ctx, { in: true });
    const n = this.low(ctx) ? r.int(2) : r.int(4);
    for (let i = 0; i < n; i++) {
      if (r.p(0.1)) out.push('...');
      out.push(...this.assign(c));
      if (i < n - 1 || r.p(0.08)) out.push(',');
    }
    out.push(')');
    return out;
  }
  primary(ctx, objectOnly = false) {
    this.spend();
    const r = this.r, p = this.o.p, c = this.deeper(ctx, { in: true });
    const low = this.low(ctx);
    let k = low ? r.w([[p.id, 'id'], [p.num, 'num'], [p.str, 'str'], [p.kwlit, 'kw'], [p.this, 'this'], [p.regex * 0.5, 'regex']])
      : r.w([[p.id, 'id'], [p.num, 'num'], [p.str, 'str'], [p.tmpl, 'tmpl'], [p.regex, 'regex'], [p.kwlit, 'kw'], [p.this, 'this'], [p.array, 'array'], [p.object, 'object'], [p.func, 'func'], [p.gen, 'gen'], [p.asyncfn, 'afn'], [p.asyncgen, 'agen'], [p.class, 'class'], [p.paren, 'paren']]);
    if (objectOnly && k === 'num') k = 'id';
    switch (k) {
      case 'id': return [this.ref(ctx)];
      case 'num': return [this.number(ctx)];
      case 'str': return [this.string(ctx)];
      case 'tmpl': return this.template(ctx);
      case 'regex': return [this.regex()];
      case 'kw': return [r.pick(['null', 'true', 'false'])];
      case 'this': return ['this'];
      case 'array': return this.arrayLit(c);
      case 'object': return this.objectLit(c);
      case 'func': return this.func(c, { expr: true });
      case 'gen': return this.func(c, { expr: true, gen: true });
      case 'afn': return this.func(c, { expr: true, async: true });
      case 'agen': return this.func(c, { expr: true, async: true, gen: true });
      case 'class': return this.classE(c, { expr: true });
      case 'paren': return ['(', ...this.expression(c), ')'];
    }
  }
  arrayLit(ctx) {
    const r = this.r; const out = ['['];
    const n = r.int(4);
    for (let i = 0; i < n; i++) {
      if (r.p(0.12)) { out.push(','); continue; }
      if (r.p(0.12)) out.push('...');
      out.push(...this.assign(ctx));
      if (i < n - 1 || r.p(0.15)) out.push(',');
    }
    if (r.p(0.05)) out.push(text(out[out.length - 1]) === '[' || text(out[out.length - 1]) === ',' ? ',' : ']');
    if (text(out[out.length - 1]) !== ']' || out.length === 1 || this.openSq(out)) out.push(']');
    return out;
  }
  openSq(out) { let d = 0; for (const t of out) { const x = text(t); if (x === '[') d++; else if (x === ']') d--; } return d > 0; }
  propKey(ctx) {
    const r = this.r;
    const k = r.w([[8, 'id'], [1.5, 'str'], [1.2, 'num'], [1.5, 'comp']]);
    if (k === 'id') return [this.propName()];
    if (k === 'str') return [this.string(ctx)];
    if (k === 'num') return [this.number(ctx)];
    return ['[', ...this.assign({ ...ctx, in: true }), ']'];
  }
  objectLit(ctx) {
    const r = this.r; const out = ['{'];
    const n = r.int(5);
    for (let i = 0; i < n; i++) {
      const k = r.w([[5, 'kv'], [2.5, 'short'], [1.5, 'method'], [0.8, 'get'], [0.8, 'set'], [0.6, 'gen'], [0.6, 'async'], [0.4, 'agen'], [0.8, 'spread']]);
      if (k === 'kv') out.push(...this.propKey(ctx), ':', ...this.assign(ctx));
      else if (k === 'short') { let n2 = this.ref({ ...ctx }); out.push(n2); }
      else if (k === 'spread') out.push('...', ...this.assign(ctx));
      else out.push(...this.method(ctx, k, { obj: true }));
      if (i < n - 1 || r.p(0.12)) out.push(',');
    }
    out.push('}');
    return out;
  }
  method(ctx, k, { obj = false, cls = null, key = null } = {}) {
    const c = { ...ctx, yield: false, await: false, ret: true, loop: false, sw: false, labels: [], sprop: true, scall: !!(cls && cls.derived && cls.ctor), nt: true, in: true };
    const K = key || this.propKey(ctx);
    switch (k) {
      case 'get': return ['get', ...K, '(', ')', ...this.fnBody(c, true)];
      case 'set': {
        const d = this.bindElem({ ...c });
        return ['set', ...K, '(', ...d, ')', ...this.fnBody(c, d.length === 1)];
      }
      case 'gen': return ['*', ...K, ...this.fnRest({ ...c, yield: true })];
      case 'async': return ['async', NL0(text(K[0])), ...K.slice(1), ...this.fnRest({ ...c, await: true })];
      case 'agen': return ['async', NL0('*'), ...K, ...this.fnRest({ ...c, yield: true, await: true })];
      default: return [...K, ...this.fnRest(c)];
    }
  }
  func(ctx, { expr = false, gen = false, async = false, noName = false }) {
    const r = this.r; const out = [];
    if (async) out.push('async', NL0('function')); else out.push('function');
    if (gen) out.push('*');
    const inner = { ...ctx, yield: gen, await: async, ret: true, loop: false, sw: false, labels: [], sprop: false, scall: false, nt: true, in: true };
    if (!noName && (!expr || r.p(0.5))) out.push(this.bindName(expr ? { ...ctx, yield: gen, await: async } : ctx));
    out.push(...this.fnRest(inner));
    return out;
  }
  fnRest(ctx) {
    // yield/await expressions may not occur in parameters
    const save = [this.o.e.yield]; this.o.e.yield = 0;
    const ps = this.params({ ...ctx, await: false, yield: false, noYA: ctx });
    this.o.e.yield = save[0];
    return [...ps, ...this.fnBody(ctx, this.simpleParams)];
  }
  params(ctx) {
    const r = this.r; const out = ['('];
    const n = r.int(4); let simple = true;
    for (let i = 0; i < n; i++) {
      const e = this.bindElem(ctx); if (e.length > 1) simple = false;
      out.push(...e); if (i < n - 1 || r.p(0.06)) out.push(',');
    }
    if (text(out[out.length - 1]) === '(' || text(out[out.length - 1]) === ',') {
      if (r.p(n === 0 ? 0.1 : 0.4)) { out.push('...', ...(r.p(0.75) ? [this.bindName2(ctx)] : this.bindPattern(this.deeper(ctx)))); simple = false; }
    }
    out.push(')');
    this.simpleParams = simple;
    return out;
  }
  bindName2(ctx) { return this.r.p(0.8) ? 'p' + (this.fresh++) : this.bindName(ctx); }
  bindElem(ctx) {
    const r = this.r; const c = this.deeper(ctx, { in: true });
    if (!this.low(ctx) && r.p(0.18)) { const p = this.bindPattern(c); return r.p(0.3) ? [...p, '=', ...this.assign(c)] : p; }
    const n = this.bindName2(ctx);
    return !this.low(ctx) && r.p(0.15) ? [n, '=', ...this.assign(c)] : [n];
  }
  bindPattern(ctx) {
    const r = this.r; const c = this.deeper(ctx, { in: true });
    const n = this.low(ctx) ? r.int(2) : r.int(4);
    const out = [];
    if (r.p(0.5)) {
      out.push('[');
      for (let i = 0; i < n; i++) {
        if (r.p(0.12)) { out.push(','); continue; }
        out.push(...this.bindElem(c)); if (i < n - 1 || r.p(0.15)) out.push(',');
      }
      if ((out.length === 1 || text(out[out.length - 1]) === ',') && r.p(0.25)) out.push('...', ...(r.p(0.7) ? [this.bindName2(ctx)] : this.bindPattern(c)));
      out.push(']');
    } else {
      out.push('{');
      for (let i = 0; i < n; i++) {
        const k = r.int(4);
        if (k === 0) out.push(this.bindName2(ctx));
        else if (k === 1) out.push(this.bindName2(ctx), '=', ...this.assign(c));
        else out.push(...this.propKey(c), ':', ...this.bindElem(c));
        if (i < n - 1 || r.p(0.12)) out.push(',');
      }
      if ((out.length === 1 || text(out[out.length - 1]) === ',') && r.p(0.2)) out.push('...', this.bindName2(ctx));
      out.push('}');
    }
    return out;
  }
  assignPattern(ctx) {
    const r = this.r; const c = this.deeper(ctx, { in: true });
    const n = this.low(ctx) ? r.int(2) : r.int(4);
    const elem = () => {
      const t = !this.low(c) && r.p(0.2) ? this.assignPattern(c) : this.target(c);
      return r.p(0.25) && !this.low(c) ? [...t, '=', ...this.assign(c)] : t;
    };
    const out = [];
    if (r.p(0.5)) {
      out.push('[');
      for (let i = 0; i < n; i++) {
        if (r.p(0.12)) { out.push(','); continue; }
        out.push(...elem()); if (i < n - 1 || r.p(0.15)) out.push(',');
      }
      if ((out.length === 1 || text(out[out.length - 1]) === ',') && r.p(0.25)) out.push('...', ...(r.p(0.75) ? this.target(c) : this.assignPattern(c)));
      out.push(']');
    } else {
      out.push('{');
      for (let i = 0; i < n; i++) {
        const k = r.int(4);
        const nm = () => { const x = this.ref(c); return ctx.strict && /^(eval|arguments)$/.test(x) ? 'q' : x; };
        if (k === 0) out.push(nm());
        else if (k === 1) out.push(nm(), '=', ...this.assign(c));
        else out.push(...this.propKey(c), ':', ...elem());
        if (i < n - 1 || r.p(0.12)) out.push(',');
      }
      if ((out.length === 1 || text(out[out.length - 1]) === ',') && r.p(0.2)) out.push('...', ...this.target(c));
      out.push('}');
    }
    return out;
  }
  classE(ctx, { expr = false, noName = false }) {
    const r = this.r; const out = ['class'];
    const c = { ...ctx, strict: true, in: true };
    if (!noName && (!expr || r.p(0.5))) out.push(this.bindName({ ...c }));
    const derived = r.p(0.35);
    if (derived) out.push('extends', ...this.lhs(this.deeper(c)));
    out.push('{');
    const n = this.low(ctx) ? r.int(2) : r.int(4); let ctor = false;
    for (let i = 0; i < n; i++) {
      if (r.p(0.1)) { out.push(';'); continue; }
      if (!ctor && r.p(0.2)) { ctor = true; out.push(...this.method(c, 'method', { cls: { derived, ctor: true }, key: [r.p(0.85) ? 'constructor' : "'constructor'"] })); continue; }
      const st = r.p(0.3);
      let key = this.propKey(c);
      if (/constructor|prototype/.test(key.map(text).join(''))) key = ['z'];
      if (st) out.push('static');
      out.push(...this.method(c, r.w([[4, 'method'], [1, 'get'], [1, 'set'], [1, 'gen'], [1, 'async'], [0.6, 'agen']]), { cls: { derived }, key }));
    }
    out.push('}');
    return out;
  }
  fnBody(ctx, simple) {
    const r = this.r; const out = ['{'];
    const c = this.deeper({ ...ctx, ret: true, loop: false, sw: false, labels: [], in: true });
    if (r.p(this.o.s.use * 0.7) && !this.low(ctx)) {
      const d = this.directive();
      if (simple || !this.lastStrict) { out.push(...d); if (this.lastStrict) c.strict = true; }
    }
    const n = this.low(ctx) ? r.int(2) : r.int(4);
    for (let i = 0; i < n; i++) out.push(...this.item(c));
    out.push('}');
    return out;
  }

  // ------------------------------------------------------------ statements
  item(ctx) {
    const r = this.r, s = this.o.s;
    const k = this.low(ctx) ? 'stmt' : r.w([[s.func, 'func'], [s.gen, 'gen'], [s.asyncfn, 'afn'], [s.asyncgen, 'agen'], [s.class, 'class'], [s.lex, 'lex'], [s.expr + s.var + s.block + s.if + s.for + s.while + s.switch + s.return + s.try + 4, 'stmt']]);
    const c = this.deeper(ctx);
    this.spend();
    switch (k) {
      case 'func': return this.func(c, {});
      case 'gen': return this.func(c, { gen: true });
      case 'afn': return this.func(c, { async: true });
      case 'agen': return this.func(c, { async: true, gen: true });
      case 'class': return this.classE(c, {});
      case 'lex': return [...this.lexDecl(c), this.semi()];
      default: return this.stmt(ctx);
    }
  }
  declarators(ctx, kind, ini = true) {
    const r = this.r; const out = []; const n = r.w([[6, 1], [2, 2], [1, 3]]);
    for (let i = 0; i < n; i++) {
      if (i) out.push(',');
      if (!this.low(ctx) && r.p(0.2)) out.push(...this.bindPattern(ctx), '=', ...this.assign(ctx));
      else { out.push(this.bindName3(ctx, kind)); if (kind === 'const' || r.p(0.6)) out.push('=', ...this.assign(ctx)); }
    }
    return out;
  }
  bindName3(ctx, kind) {
    if (kind === 'var') return this.bindName(ctx);
    const n = this.bindName2(ctx); return n === 'let' ? 'q' + (this.fresh++) : n;
  }
  lexDecl(ctx) { const k = this.r.pick(['let', 'const']); return [k, ...this.declarators(ctx, k)]; }
  body(ctx) { // sub-statement
    return this.stmt(this.deeper(ctx));
  }
  exprStmt(ctx) {
    let e = this.expression({ ...ctx, in: true });
    const f = text(e[0]);
    if (f === '{' || f === 'function' || f === 'class' || (f === 'async' && e[1] && text(e[1]) === 'function') || (f === 'let' && e[1] && text(e[1]) === '[') || /^['"]/.test(f) && e.length === 1) e = ['(', ...e, ')'];
    return [...e, this.semi()];
  }
  stmt(ctx) {
    const r = this.r, s = this.o.s; this.spend();
    if (this.low(ctx)) {
      const k = r.w([[s.expr, 'e'], [s.empty, 'empty'], [s.debugger, 'dbg']]);
      return k === 'e' ? this.exprStmt(ctx) : k === 'empty' ? [';'] : ['debugger', this.semi()];
    }
    const c = this.deeper(ctx, { in: true });
    const lc = { ...c, loop: true };
    const k = r.w([[s.expr, 'expr'], [s.var, 'var'], [s.block, 'block'], [s.empty, 'empty'], [s.if, 'if'], [s.for, 'for'], [s.forin, 'forin'], [s.forof, 'forof'], [s.while, 'while'], [s.dowhile, 'dowhile'], [s.switch, 'switch'], [ctx.loop ? s.continue : 0, 'continue'], [ctx.loop || ctx.sw ? s.break : 0, 'break'], [ctx.ret ? s.return : 0, 'return'], [ctx.strict ? 0 : s.with, 'with'], [s.label, 'label'], [s.throw, 'throw'], [s.try, 'try'], [s.debugger, 'debugger']]);
    switch (k) {
      case 'expr': return this.exprStmt(ctx);
      case 'var': return ['var', ...this.declarators(c, 'var'), this.semi()];
      case 'block': return this.block(c);
      case 'empty': return [';'];
      case 'if': {
        const out = ['if', '(', ...this.expression(c), ')', ...this.body(c)];
        if (r.p(0.45)) { out.push('else', ...this.body(c)); }
        return out;
      }
      case 'for': {
        const out = ['for', '('];
        const ini = r.int(4), ni = { ...c, in: false };
        if (ini === 1) out.push('var', ...this.declarators(ni, 'var'));
        else if (ini === 2) out.push(...this.lexDecl(ni));
        else if (ini === 3) { let e = this.expression(ni); if (text(e[0]) === 'let') e = ['(', ...e, ')']; out.push(...e); }
        out.push(';'); if (r.p(0.7)) out.push(...this.expression(c));
        out.push(';'); if (r.p(0.7)) out.push(...this.expression(c));
        out.push(')', ...this.body(lc));
        return out;
      }
      case 'forin': case 'forof': {
        const out = k === 'forof' && ctx.await && r.p(0.4) ? ['for', 'await', '('] : ['for', '('];
        const ini = r.int(3);
        if (ini === 0) out.push('var', ...(r.p(0.7) ? [this.bindName(c)] : this.bindPattern(c)));
        else if (ini === 1) out.push(r.pick(['let', 'const']), ...(r.p(0.7) ? [this.bindName3(c, 'let')] : this.bindPattern(c)));
        else { let t = r.p(0.25) ? this.assignPattern(c) : this.target(c); if (text(t[0]) === 'let' || text(t[0]) === 'async') t = ['x']; out.push(...t); }
        if (k === 'forin') out.push('in', ...this.expression(c)); else out.push('of', ...this.assign(c));
        out.push(')', ...this.body(lc));
        return out;
      }
      case 'while': return ['while', '(', ...this.expression(c), ')', ...this.body(lc)];
      case 'dowhile': return ['do', ...this.body(lc), 'while', '(', ...this.expression(c), ')', { t: ';', asi: true, dow: true }];
      case 'switch': {
        const out = ['switch', '(', ...this.expression(c), ')', '{'];
        const n = r.int(4); let def = false; const sc = { ...c, sw: true };
        for (let i = 0; i < n; i++) {
          if (!def && r.p(0.25)) { def = true; out.push('default', ':'); } else out.push('case', ...this.expression(c), ':');
          const m = r.int(3); for (let j = 0; j < m; j++) out.push(...this.item(sc));
        }
        out.push('}');
        return out;
      }
      case 'continue': { const l = ctx.labels.filter(x => x.loop); return ['continue', ...(l.length && r.p(0.4) ? [NL0(r.pick(l).n)] : []), this.semi()]; }
      case 'break': return ['break', ...(ctx.labels.length && r.p(0.4) ? [NL0(r.pick(ctx.labels).n)] : []), this.semi()];
      case 'return': { if (r.p(0.25)) return ['return', this.semi()]; const e = this.expression(c); return ['return', NL0(text(e[0])), ...e.slice(1), this.semi()]; }
      case 'with': return ['with', '(', ...this.expression(c), ')', ...this.body(c)];
      case 'label': {
        const n = 'L' + (this.fresh++);
        if (r.p(0.5)) {
          const lc2 = { ...c, labels: [...c.labels, { n, loop: true }], loop: true };
          return [n, ':', 'while', '(', ...this.expression(c), ')', ...this.body(lc2)];
        }
        const lc3 = { ...c, labels: [...c.labels, { n, loop: false }] };
        return [n, ':', ...this.body(lc3)];
      }
      case 'throw': { const e = this.expression(c); return ['throw', NL0(text(e[0])), ...e.slice(1), this.semi()]; }
      case 'try': {
        const out = ['try', ...this.block(c)]; const m = r.int(3);
        if (m !== 1) {
          out.push('catch');
          if (r.p(0.8)) out.push('(', ...(r.p(0.8) ? [this.bindName2(c)] : this.bindPattern(c)), ')');
          out.push(...this.block(c));
        }
        if (m !== 0) out.push('finally', ...this.block(c));
        return out;
      }
      case 'debugger': return ['debugger', this.semi()];
    }
  }
  block(ctx) {
    const r = this.r; const out = ['{']; const n = this.low(ctx) ? r.int(2) : r.int(4);
    for (let i = 0; i < n; i++) out.push(...this.item(ctx));
    out.push('}');
    return out;
  }

  // ------------------------------------------------------------ modules
  modName() { const r = this.r; return r.p(0.15) ? r.pick(KW.concat(['as', 'from', 'default', 'of', 'async', 'await', 'yield', 'let', 'static'])) : r.pick(PLAIN.concat(['as', 'from', 'of', 'get', 'set', 'async'])); }
  moduleItem(ctx) {
    const r = this.r; const c = this.deeper(ctx); this.spend();
    const loc = () => r.p(0.8) ? 'm' + (this.fresh++) : this.bindName2(c);
    const src = () => { const q = r.pick(['"', "'"]); return q + r.pick(['mod', './a.js', '', 'x/y', 'é', '../z', "\\x61"]) + q; };
    const uniqExport = n => { let x = n.startsWith('\\') ? 'z' : n; while (this.exportNames.has(x)) x = 'ex' + (this.fresh++); this.exportNames.add(x); return x; };
    const named = () => { const out = ['{']; const n = r.int(4); for (let i = 0; i < n; i++) { if (r.p(0.5)) out.push(this.modName(), 'as', loc()); else out.push(loc()); if (i < n - 1 || r.p(0.2)) out.push(','); } out.push('}'); return out; };
    const k = r.w([[1, 'side'], [2, 'def'], [2, 'ns'], [3, 'named'], [1, 'defns'], [1.5, 'defnamed'], [1.5, 'exall'], [3, 'exnamed'], [2, 'exfrom'], [1.5, 'exvar'], [2, 'exlex'], [2, 'exfn'], [1.5, 'excls'], [1.5, 'exdef']]);
    switch (k) {
      case 'side': return ['import', src(), this.semi()];
      case 'def': return ['import', loc(), 'from', src(), this.semi()];
      case 'ns': return ['import', '*', 'as', loc(), 'from', src(), this.semi()];
      case 'named': return ['import', ...named(), 'from', src(), this.semi()];
      case 'defns': return ['import', loc(), ',', '*', 'as', loc(), 'from', src(), this.semi()];
      case 'defnamed': return ['import', loc(), ',', ...named(), 'from', src(), this.semi()];
      case 'exall': return ['export', '*', 'from', src(), this.semi()];
      case 'exfrom': case 'exnamed': {
        const from = k === 'exfrom'; const out = []; const pre = [];
        out.push('export', '{'); const n = r.int(4);
        for (let i = 0; i < n; i++) {
          let l;
          if (from) l = this.modName(); else { l = 'd' + (this.fresh++); pre.push('var', l, ';'); }
          if (r.p(0.5)) out.push(l, 'as', uniqExport(this.modName())); else { if (this.exportNames.has(l)) out.push(l, 'as', uniqExport('zz')); else { this.exportNames.add(l); out.push(l); } }
          if (i < n - 1 || r.p(0.2)) out.push(',');
        }
        out.push('}'); if (from) out.push('from', src()); out.push(this.semi());
        return [...pre, ...out];
      }
      case 'exvar': return ['export', 'var', 'u' + (this.fresh++), '=', ...this.assign(c), this.semi()];
      case 'exlex': { const kd = r.pick(['let', 'const']); return ['export', kd, ...this.declarators(c, kd), this.semi()]; }
      case 'exfn': return ['export', ...this.func(c, { gen: r.p(0.25), async: r.p(0.3) })];
      case 'excls': return ['export', ...this.classE(c, {})];
      case 'exdef': {
        if (this.exportNames.has('default')) return [';'];
        this.exportNames.add('default');
        const m = r.int(4);
        if (m === 0) return ['export', 'default', ...this.func(c, { gen: r.p(0.25), async: r.p(0.3), noName: r.p(0.5) })];
        if (m === 1) return ['export', 'default', ...this.classE(c, { noName: r.p(0.5) })];
        let e = this.assign(c); const f = text(e[0]);
        if (f === 'function' || f === 'class' || (f === 'async' && e[1] && text(e[1]) === 'function')) e = ['(', ...e, ')'];
        return ['export', 'default', ...e, this.semi()];
      }
    }
  }
}
