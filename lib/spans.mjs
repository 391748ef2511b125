// Reads the text of Rust's derived Debug output of a giron tree and collects
// the spans of its nodes; collects the same spans from acorn's tree.

// A struct is {n: name, f: {field: value}}, a tuple {n, t: [..]}, a list an
// array, everything else a scalar.
export function parseDebug(s) {
  let i = 0;
  const ws = () => { while (s.charCodeAt(i) === 32 || s.charCodeAt(i) === 10) i++; };
  const IDENT = /[A-Za-z_][A-Za-z0-9_]*/y, NUM = /-?(?:inf|NaN|[0-9.]+(?:e-?[0-9]+)?)/y;
  function str(q) {
    const start = i++;
    while (s[i] !== q) { if (s[i] === '\\') i++; i++; }
    i++;
    return { s: s.slice(start, i) };
  }
  function value() {
    ws();
    const c = s[i];
    if (c === '"') return str('"');
    if (c === "'") return str("'");
    if (c === '[') {
      i++; const out = [];
      for (;;) { ws(); if (s[i] === ']') { i++; return out; } out.push(value()); ws(); if (s[i] === ',') i++; }
    }
    IDENT.lastIndex = i;
    const m = IDENT.exec(s);
    if (m && m.index === i && !/^(inf|NaN)\b/.test(m[0])) {
      i += m[0].length; const n = m[0]; const save = i; ws();
      if (s[i] === '{') {
        i++; const f = {};
        for (;;) {
          ws(); if (s[i] === '}') { i++; return { n, f }; }
          IDENT.lastIndex = s[i] === 'r' && s[i + 1] === '#' ? i + 2 : i;
          const k = IDENT.exec(s)[0]; i = IDENT.lastIndex; ws();
          if (s[i] !== ':') throw new Error('debug text: expected : at ' + i);
          i++; f[k] = value(); ws(); if (s[i] === ',') i++;
        }
      }
      if (s[i] === '(') {
        i++; const t = [];
        for (;;) { ws(); if (s[i] === ')') { i++; return { n, t }; } t.push(value()); ws(); if (s[i] === ',') i++; }
      }
      i = save; return { n };
    }
    NUM.lastIndex = i; const k = NUM.exec(s);
    if (!k || k[0] === '') throw new Error('debug text: unexpected ' + JSON.stringify(s.slice(i, i + 20)) + ' at ' + i);
    i += k[0].length; return Number(k[0]);
  }
  const v = value(); ws();
  if (i !== s.length) throw new Error('debug text: left over ' + s.slice(i, i + 20));
  return v;
}

const mk = m => ({ line: m.f.line, col: m.f.col, idx: m.f.idx });
// [{n, start, end, parent}] in preorder; parent is an index into the list or -1
export function girSpans(tree) {
  const out = [];
  (function walk(v, parent) {
    if (Array.isArray(v)) { for (const x of v) walk(x, parent); return; }
    if (!v || typeof v !== 'object') return;
    if (v.t) { for (const x of v.t) walk(x, parent); return; }
    if (!v.f) return;
    let me = parent;
    if (v.f.span) { me = out.length; out.push({ n: v.n, start: mk(v.f.span.f.start), end: mk(v.f.span.f.end), parent }); }
    for (const k in v.f) if (k !== 'span') walk(v.f[k], me);
  })(tree, -1);
  return out;
}
