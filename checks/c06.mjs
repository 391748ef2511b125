// C06 template literals: cooked, raw, substitutions, tail marks, nesting.
import { Gen, text } from '../lib/gen.mjs';
import { plain, decorate } from '../lib/print.mjs';
import { allStrings, randCp } from '../lib/lex.mjs';
import { piece } from './c05.mjs';
import { seqs, program, glue } from '../lib/work.mjs';
import { STMTS } from './c12.mjs';
import { longs } from '../lib/long.mjs';

// text of a quasi; tagged ones may contain malformed escapes
export function quasi(r, tagged, max = 5) {
  let s = '';
  for (let n = r.int(max); n > 0; n--) s += r.w([
    [4, () => { const p = piece(r, '`', true); return p === '`' ? '' : p; }],
    [4, () => r.pick(['a', ' ', '$', '$$', '{', '}', '{}', '"', "'", '\\`', '\\$', '\\${', '$\\{', '\\\\', '//', '/*', '*/', '\n', '\r', '\r\n', '\n\r', '\u2028', '\u2029', '\\\n', '\\\r', '\\\r\n', '\\\u2028', '\\0', '}}', '}`'.slice(0, 1), '=>', '😀'])],
    [tagged ? 2 : 0, () => r.pick(['\\1', '\\01', '\\08', '\\8', '\\x', '\\xg', '\\x1', '\\u', '\\u1', '\\u12', '\\u123', '\\u{', '\\u{}', '\\u{g', '\\u{110000}', '\\u{1', '\\u{12', '\\07', '\\9', '\\xG0', '\\u00G0'])],
  ])();
  // no substitution start, no escape running into what follows
  s = s.replace(/\$\{/g, (m, i) => /(^|[^\\])(\\\\)*\\$/.test(s.slice(0, i)) ? m : '${'.slice(0, 1) + ' {').replace(/\\0(?=\d)/g, m => tagged ? m : '\\x00');
  return s;
}
const EXPRS = ['a', '1', 'a+b', 'f(x)', '{}', '{a:1}', '{a:{b}}', 'function(){}', 'function(){return{}}', '()=>{}', '()=>({})', 'class{}', '[...a]', 'a,b', 'a?b:c', '/}/', '/`/', '/[`]/', '"}"', "'`'", 'a/b', 'x=>{y}', '{get a(){return 1}}', '{a(){}}', 'a /* } */', 'a // }\n', '/* ` */ a', 'new X', 'a++', 'async()=>{}', '{[`a`]:1}', 'this', 'null', 'a\n+\nb', '({}).a', 'yield_', 'function(){`}`}', 'a in b', '()=>{if(a){}else{}}', 'x={}', 'a`b`', '{}/1', '{}.a', '(function(){})()/2', 'a\n/b/c'];
export function template(r, d, tagged = false) {
  let s = '`' + quasi(r, tagged);
  for (let n = d <= 0 ? 0 : r.w([[3, 0], [4, 1], [2, 2], [1, 4]]); n > 0; n--) {
    const e = r.p(0.45) && d > 0 ? nested(r, d - 1) : r.pick(EXPRS);
    s = s.replace(/(\\*)\$$/, (m, b) => b.length % 2 ? m : b) + '${' + r.pick(['', ' ', '\n']) + e + r.pick(['', ' ']) + '}' + quasi(r, tagged);
  }
  return s.replace(/(\\+)$/, m => m.length % 2 ? m + '\\' : m) + '`';
}
function nested(r, d) {
  const t = template(r, d);
  return r.w([[5, t], [2, r.pick(['x', 'a.b', 'f()', '(y)', 'new z']) + template(r, d, true)], [1, t + '+' + template(r, d)], [1, '{a:' + t + '}'], [1, `f(${t})`], [1, `{[${t}]:${r.pick(EXPRS.slice(0, 4))}}`], [1, `()=>{${t}}`], [1, `function(){return ${t}}`], [0.6, `${t}/2`], [0.5, `${t}\n/a/g`]]);
}
const TAGS = ['', 'x', 'x.y', 'f()', 'x[0]', '(x)', 'new x', 'new x.y', 'x`a`', 'this', 'x\n', 'x/**/', 'x //\n', 'function(){}', 'class{}', 'null', '"s"', '1', '/r/', '()=>x', 'async', 'let', 'yield', 'a++', '++a', '-x', 'typeof x', 'await', 'x=', 'x=>', 'return_ ', 'x=y', 'super', 'new.target', 'x()()', 'x.if', '[]', '{}', '({})', 'x?y:z'];
const CTX = ['@', '@;', 'x=@', '(@)', '@.a', '@[0]', '@()', '@+1', '!@', 'f(@,@)', '[@,@]', '({a:@})', '({[@]:1})', 'if(@){}', '{@}', 'function f(){@}', '@\n@', '@;@', 'class A extends x@{}', 'a?@:@', 'x=>@', 'async x=>{await @}', 'function*g(){yield @}', '{{{@}}}', 'for(;@;){}', 'switch(@){case@:}', '@/2/3', '@\n/a/g'];
const CH = ['a', '`', '$', '{', '}', '\\', '\n', '\r', 'u', 'x', '0', '8'];
const UN = ['`', '${', '}', '{', 'a', ';', '/', '\\`', '('];
const bad = (r, t) => { const s = [...t]; for (let k = r.range(1, 2); k > 0 && s.length; k--) { const p = r.int(s.length); const m = r.int(4); if (m === 0) s.splice(p, 1); else if (m === 1) s.splice(p, 0, r.pick(CH)); else if (m === 2) s[p] = r.pick(CH); else s.length = p; } return s.join(''); };
// bodies of balanced braces, with little or nothing between them
const CLOSE = { '{': '}', '({': '})', 'x={': '}', 'x=>{': '}', 'f`${': '}`', 'class A{': '}', '(function(){': '})' };
const balanced = (r, d) => { let s = ''; for (let n = r.range(0, 3); n > 0; n--) { const o = r.w([[6, '{'], ...Object.keys(CLOSE).map(k => [1, k])]); s += r.pick(['', '', '', '', 'a;', ' ', '\n', ';', 'if(a)', 'L:', '`b`;', '`${c}`;', '+', '/*{*/']) + o + (d > 0 ? balanced(r, d - 1) : '') + CLOSE[o]; } return s; };
const BODY = ['`${function(){@}}`', '`a${x=>{@}}b`', '`${{a(){@}}}`', '`${{a:@}}`', '`${@}`', '`${class{a(){@}}}c${d}`', 'f`${async()=>{@}}${e}`', '`${`${function(){@}}`}`', '`${a}${function*(){@}}`', '{@}`${a}`', '`${a}`;{@}`b`', 'function f(){@}`${{}}`'];
export default {
  id: 'C06',
  rule: 'templates nested up to depth 5 with every text form (escapes, malformed escapes in tagged ones, line terminators, $ and braces) and substitutions that contain braces, functions, regular expressions, comments and templates, in 28 contexts and behind 40 tags; all strings of up to 4 symbols over 12 characters between backticks, tagged and not; all sequences of up to 5 over 9 template-relevant symbols; mutated templates; balanced and unbalanced braces and pairs of statements in bodies inside substitutions. Compared with the reference parse. Distinct by source text.',
  assumptions: ['acorn 8.19 (vendored) gives cooked and raw as the standard says'],
  relevant: v => v.min.includes('`'),
  streams: () => [
    ...longs({ lists: 300, single: 600, deep: 4000 }),
    ...allStrings('untagged', CH, 5, 3, 30000, s => ({ src: '`' + s + '`', goal: 's' })),
    ...allStrings('tagged', CH, 5, 3, 30000, s => ({ src: 'x`' + s + '`', goal: 's' })),
    ...allStrings('after a substitution', CH, 5, 3, 30000, s => ({ src: 'x`${a}' + s + '`', goal: 's' })),
    ...allStrings('brace structure', UN, 6, 4, 40000, s => ({ src: s, goal: 's' })),
    ...seqs('braces in a substitution', ['{', '}', ';', 'a', '`', '${', '(', ')', ':'], BODY.slice(0, 8), { max: 6, full: 3, tfull: 5, sample: 20000, sep: '' }),
    { name: 'balanced braces', n: { quick: 30000, thorough: 400000 }, make: (i, r) => ({ src: r.pick(BODY).replaceAll('@', () => balanced(r, 2)), goal: r.p(0.2) ? 'm' : 's' }) },
    { name: 'statements in a substitution', n: { quick: 30000, thorough: 400000 }, make: (i, r) => ({ src: r.pick(BODY).replaceAll('@', () => r.p(0.3) ? glue(program(r, { size: 6, depth: 3, stmts: [1, 3], module: false }).toks.map(text)) : r.pick(STMTS) + r.pick(['', ';', '\n', ' ']) + r.pick(STMTS)), goal: r.p(0.2) ? 'm' : 's' }) },
    { name: 'nested', n: { quick: 60000, thorough: 900000 }, make: (i, r) => { const tag = r.p(0.3) ? r.pick(TAGS.slice(0, 12)) : ''; return { src: r.pick(CTX).replace(/@/g, () => tag + template(r, r.range(0, 4), !!tag)), goal: r.p(0.2) ? 'm' : 's' }; } },
    { name: 'tags', n: { quick: 20000, thorough: 200000 }, make: (i, r) => { const tag = TAGS[i % TAGS.length]; return { src: r.pick(CTX.slice(0, 16)).replace(/@/g, () => tag + template(r, r.int(2), true)), goal: r.p(0.2) ? 'm' : 's' }; } },
    { name: 'mutated', n: { quick: 60000, thorough: 900000 }, make: (i, r) => { const tag = r.p(0.4) ? 'x' : ''; return { src: r.pick(CTX).replace(/@/g, () => tag + bad(r, template(r, r.int(3), !!tag))), goal: 's' }; } },
    { name: 'truncated', n: { quick: 20000, thorough: 200000 }, make: (i, r) => { const s = r.pick(CTX).replace(/@/g, () => template(r, r.int(4))); const a = [...s]; return { src: a.slice(0, r.int(a.length + 1)).join(''), goal: 's' }; } },
    { name: 'every code point', enum: true, n: { quick: 8000, thorough: 65536 }, make: (i, r, ctx) => { const cp = ctx.quick ? (i < 0x200 ? i : randCp(r)) : i; if (cp >= 0xd800 && cp < 0xe000) return null; const c = String.fromCodePoint(cp); return [{ src: '`' + c + 'z`', goal: 's' }, { src: 'x`\\' + c + '${a}' + c + '`', goal: 's' }]; } },
    { name: 'programs', n: { quick: 10000, thorough: 120000 }, make: (i, r) => { const g = new Gen(r, { size: 20, depth: 4, module: i % 4 === 0, tmplText: g => quasi(g.r, false).replace(/(\\+)$/, m => m.length % 2 ? m + '\\' : m).replace(/\$$/, ''), p: { tmpl: 14, id: 4 } }); const t = g.program(); return { src: r.p(0.5) ? plain(t) : decorate(t, r, { density: 0.2 }), goal: i % 4 === 0 ? 'm' : 's' }; } },
  ],
};
