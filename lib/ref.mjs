// Reference side: acorn (vendored) and the two normalisers that bring acorn's
// ESTree and giron's JSON to one canonical form.
import * as acorn from '../vendor/acorn.mjs';

export function refParse(src, goal, ecmaVersion = 2019) {
  try {
    const ast = acorn.parse(src, {
      ecmaVersion, sourceType: goal === 'm' ? 'module' : 'script',
      allowHashBang: false, allowReserved: false,
    });
    return { ok: true, ast };
  } catch (e) {
    if (!(e instanceof SyntaxError)) return { ok: false, internal: true, msg: String(e && e.message) };
    return { ok: false, msg: e.message.replace(/ \(\d+:\d+\)$/, ''), pos: e.pos, loc: e.loc };
  }
}

const DROP_REF = new Set(['start', 'end', 'loc', 'range', 'bigint']);
export function normRef(n) {
  if (Array.isArray(n)) return n.map(normRef);
  if (n instanceof RegExp) return null;
  if (n === null || typeof n !== 'object') return typeof n === 'number' && !Number.isFinite(n) ? null : n;
  const o = {};
  for (const k of Object.keys(n)) {
    if (DROP_REF.has(k)) continue;
    o[k] = normRef(n[k]);
  }
  return o;
}

export function normGiron(n) {
  if (Array.isArray(n)) return n.map(normGiron);
  if (n === null || typeof n !== 'object') return n;
  const o = {};
  for (const k of Object.keys(n)) o[k] = normGiron(n[k]);
  return o;
}

// First difference between two normalised trees, as a path.
export function diff(a, b, p = '') {
  if (a === b) return null;
  if (Array.isArray(a) && Array.isArray(b)) {
    for (let i = 0; i < Math.max(a.length, b.length); i++) {
      const d = i >= a.length ? `${p}[${i}]: extra in giron` : i >= b.length ? `${p}[${i}]: missing in giron` : diff(a[i], b[i], `${p}[${i}]`);
      if (d) return d;
    }
    return null;
  }
  if (a && b && typeof a === 'object' && typeof b === 'object' && !Array.isArray(a) && !Array.isArray(b)) {
    if (a.type !== b.type) return `${p}.type: expected ${a.type}, got ${b.type}`;
    for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
      if (!(k in a)) return `${p}.${k}: not expected on ${a.type}, got ${short(b[k])}`;
      if (!(k in b)) return `${p}.${k}: missing on ${a.type}, expected ${short(a[k])}`;
      const d = diff(a[k], b[k], `${p}.${k}`);
      if (d) return d;
    }
    return null;
  }
  if (typeof a === 'number' && typeof b === 'number' && Object.is(a, b)) return null;
  return `${p}: expected ${short(a)}, got ${short(b)}`;
}
function short(x) { const s = JSON.stringify(x); return s === undefined ? 'undefined' : s.length > 120 ? s.slice(0, 120) + '…' : s; }
