// The tree oracle: one parse observed through the driver, judged against the
// reference parse of the same source.
import { refParse } from './ref.mjs';
import { hasNewer } from './newer.mjs';

// Early errors acorn reports and giron does not implement. They are static
// semantics outside the properties; sources with such an error are not judged
// for acceptance.
const IGNORED = [
  /^Export '.*' is not defined$/, /^let is disallowed as a lexically bound name$/,
  /^Deleting local variable in strict mode$/, /^Duplicate export/, /^Argument name clash$/,
  /^Identifier '.*' has already been declared$/, /^'.*' keyword outside a method$/,
  /^super\(\) call outside constructor of a subclass$/,
  /^'.*' can only be used in functions and class static block$/,
  /^Invalid regular expression/, /^Redefinition of (__proto__ )?property$/,
  /^Duplicate constructor in the same class$/, /^Duplicate regular expression flag$/, /^Classes may not have a static property named prototype$/, /^Invalid regular expression flag$/,
];
export const ignored = msg => IGNORED.some(x => x.test(msg));
// Annex B HTML-like comments are not part of giron's language.
// `for (async of` is read differently by ES2019 and ES2021.
const T = '(?:\\s|/\\*[^]*?\\*/|//.*[\\n\\r\\u2028\\u2029])';
const FOR_ASYNC_OF = new RegExp(`for${T}*\\(${T}*async${T}+of(?!${T}*=>)`);
export const outOfScope = src => src.includes('<!--') || src.includes('-->') || (src.includes('async') && FOR_ASYNC_OF.test(src));

const SKIP = new Set(['start', 'end', 'type', 'bigint']);
// First difference between acorn's tree and giron's JSON: {path, type, text} or null.
// `type` is the reference node type the difference is found on.
export function diffTree(a, b, path = '', type = '') {
  if (Array.isArray(a)) {
    if (!Array.isArray(b)) return { path, type, text: `expected a list, got ${short(b)}` };
    const n = Math.max(a.length, b.length);
    for (let i = 0; i < n; i++) {
      if (i >= a.length) return { path: `${path}[${i}]`, type, text: `extra ${short(b[i])}` };
      if (i >= b.length) return { path: `${path}[${i}]`, type, text: `missing ${short(a[i])}` };
      const d = diffTree(a[i], b[i], `${path}[${i}]`, type);
      if (d) return d;
    }
    return null;
  }
  if (a !== null && typeof a === 'object') {
    if (a instanceof RegExp) return b === null || (typeof b === 'object' && !Array.isArray(b) && Object.keys(b).length === 0) ? null : { path, type, text: `expected no value, got ${short(b)}` };
    if (b === null || typeof b !== 'object' || Array.isArray(b)) return { path, type, text: `expected ${short(a)}, got ${short(b)}` };
    const ty = a.type || type;
    if (a.type !== b.type) return { path: path + '.type', type: ty, text: `expected ${a.type}, got ${b.type}` };
    let seen = 0;
    for (const k in a) {
      if (SKIP.has(k)) continue;
      seen++;
      if (!(k in b)) return { path: `${path}.${k}`, type: ty, text: `missing, expected ${short(a[k])}` };
      const d = diffTree(a[k], b[k], `${path}.${k}`, ty);
      if (d) return d;
    }
    let got = 0;
    for (const k in b) { if (k === 'type') continue; got++; if (!(k in a)) return { path: `${path}.${k}`, type: ty, text: `unexpected field ${short(b[k])}` }; }
    if (got !== seen) return { path, type: ty, text: 'fields differ' };
    return null;
  }
  if (typeof a === 'number' && !Number.isFinite(a)) return b === null ? null : { path, type, text: `expected ${a} (null in JSON), got ${short(b)}` };
  return Object.is(a, b) ? null : { path, type, text: `expected ${short(a)}, got ${short(b)}` };
}
export function short(x) { let s; try { s = JSON.stringify(x, (k, v) => k === 'start' || k === 'end' ? undefined : v); } catch { s = String(x); } return s === undefined ? String(x) : s.length > 160 ? s.slice(0, 160) + '…' : s; }

export const CRASH = new Set(['panic', 'abort', 'hang', 'oom', 'serpanic', 'sererr']);
// Lone surrogate escapes: the known finding of C05 and C06 (a Rust String cannot
// hold them). Pinned inputs are judged with `pinned`, workloads skip them.
export const maySurrogate = src => /\\u\{?0*[dD][89a-fA-F]/.test(src);
// a surrogate pair whose halves are separated by line continuations
export const SPLIT_PAIR = /\\u\{?0*[dD][89aAbB][0-9a-fA-F]{2}\}?(?:\\(?:\r\n|[\n\r\u2028\u2029]))+\\u/;
export function hasLone(ast) {
  if (typeof ast === 'string') return !ast.isWellFormed();
  if (Array.isArray(ast)) return ast.some(hasLone);
  if (!ast || typeof ast !== 'object' || ast instanceof RegExp) return false;
  for (const k in ast) if (hasLone(ast[k])) return true;
  return false;
}
const cookedNull = x => {
  if (Array.isArray(x)) return x.map(cookedNull);
  if (!x || typeof x !== 'object' || x instanceof RegExp) return x;
  const o = {};
  for (const k in x) o[k] = k === 'cooked' && typeof x[k] === 'string' && !x[k].isWellFormed() ? null : cookedNull(x[k]);
  return o;
};
// A directive with an octal escape before a later "use strict" of the same
// prologue: an error of the standard that the reference does not know.
export function octalPrologue(ast) {
  if (Array.isArray(ast)) {
    let oct = false;
    for (const x of ast) {
      if (!x || typeof x.directive !== 'string') break;
      if (oct && /^.use strict.$/.test(x.expression.raw)) return true;
      oct ||= /\\(?:[1-9]|0\d)/.test(x.expression.raw.replace(/\\[^0-9]/g, ''));
    }
    return ast.some(octalPrologue);
  }
  if (!ast || typeof ast !== 'object' || ast instanceof RegExp) return false;
  for (const k in ast) if (typeof ast[k] === 'object' && octalPrologue(ast[k])) return true;
  return false;
}
// -> null (agrees) | {kind, detail, path?, type?} | {skip: reason}
export function judgeTree(src, goal, rec, ref = refParse(src, goal), pinned = false) {
  if (CRASH.has(rec.k)) return { kind: 'crash', detail: `${rec.k}: ${String(rec.msg).split('\n').slice(0, 3).join(' ')}`, valid: ref.ok, ref };
  if (outOfScope(src)) return { skip: 'out of the language (HTML-like comment, for (async of)' };
  if (ref.internal) return { skip: 'reference failed' };
  if (ref.ok) {
    if (!pinned && maySurrogate(src) && (hasLone(ref.ast) || SPLIT_PAIR.test(src))) {
      // what is known is a rejection, or a null cooked value in a tagged template
      if (rec.k === 'err') return { skip: 'lone surrogate escape (known finding)' };
      const d = diffTree(cookedNull(ref.ast), rec.ast);
      return d ? { kind: 'diff', detail: `${d.path}: ${d.text}`, type: d.type, path: d.path, ref } : { skip: 'lone surrogate escape (known finding)' };
    }
    if (rec.k === 'err' && /\\\d[^]*use strict/.test(src) && octalPrologue(ref.ast)) return { skip: 'octal escape before use strict' };
    if (rec.k === 'err' && !pinned && hasNewer(src)) return { skip: 'identifier character newer than Unicode 9 (known finding)' };
    if (rec.k === 'err') return { kind: 'reject', detail: `valid source rejected: ${rec.msg} (${rec.line}:${rec.col})`, ref };
    const d = diffTree(ref.ast, rec.ast);
    return d ? { kind: 'diff', detail: `${d.path}: ${d.text}`, type: d.type, path: d.path, ref } : null;
  }
  if (rec.k === 'err') return null;
  if (ignored(ref.msg) || /__proto__[^]*__proto__/.test(src)) return { skip: 'early error out of scope' };
  return { kind: 'accept', detail: `accepted, although ${ref.msg}`, ref };
}

export function nodeTypes(ast, out = new Set()) {
  if (Array.isArray(ast)) { for (const x of ast) nodeTypes(x, out); return out; }
  if (!ast || typeof ast !== 'object' || ast instanceof RegExp) return out;
  if (ast.type) out.add(ast.type);
  for (const k in ast) if (typeof ast[k] === 'object') nodeTypes(ast[k], out);
  return out;
}
