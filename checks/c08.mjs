// C08 identifiers, keywords and contextual words.
import { Gen, text } from '../lib/gen.mjs';
import { plain, decorate } from '../lib/print.mjs';
import { allStrings, randCp } from '../lib/lex.mjs';
import { isNewer } from '../lib/newer.mjs';
import { judgeTree } from '../lib/oracle.mjs';
import { longs } from '../lib/long.mjs';

export const KW = ['break', 'case', 'catch', 'class', 'const', 'continue', 'debugger', 'default', 'delete', 'do', 'else', 'export', 'extends', 'finally', 'for', 'function', 'if', 'import', 'in', 'instanceof', 'new', 'return', 'super', 'switch', 'this', 'throw', 'try', 'typeof', 'var', 'void', 'while', 'with', 'enum', 'null', 'true', 'false'];
export const SOFT = ['implements', 'interface', 'package', 'private', 'protected', 'public', 'static', 'let', 'yield', 'await', 'async', 'get', 'set', 'of', 'from', 'as', 'target', 'constructor', 'prototype', 'undefined', 'NaN', 'eval', 'arguments', 'meta', 'Infinity', '__proto__'];
const WORDS = [...KW, ...SOFT, 'foo', '$', '_', 'π', '𠮷'];
export const esc = (w, i, form) => { const c = [...w]; const cp = c[i].codePointAt(0); c[i] = form === 0 && cp < 0x10000 ? '\\u' + cp.toString(16).padStart(4, '0') : '\\u{' + (form === 2 ? '0000' : '') + cp.toString(16).toUpperCase() + '}'; return c.join(''); };
// @ is the word
export const POS = ['@', '@;', 'x=@', '@=x', '(@)', '@.a', '@[0]', '@()', 'f(@)', '[@]', 'a.@', 'a.@.b', 'a.@=b', 'a.@()', 'new a.@', 'new @', '({@})', '({@:a})', '({@:@})', '({@(){}})', '({get @(){}})', '({set @(a){}})', '({async @(){}})', '({*@(){}})', '({async*@(){}})', '({a:@})', '({@}=x)', '({@=1}=x)', '({a:@}=x)', '({...@}=x)', '[@]=x', '[...@]=x', '[@=1]=x', 'var @', 'var @=1', 'let @', 'const @=1', 'var{@}=x', 'var{@:a}=x', 'var{a:@}=x', 'var{@=1}=x', 'var{...@}=x', 'var[@]=x', 'var[...@]=x', 'let{@}=x', 'let[@]=x', 'let a,@', 'function @(){}', 'x=function @(){}', 'x=function*@(){}', 'x=async function @(){}', 'function*@(){}', 'async function @(){}', 'async function*@(){}', 'function f(@){}', 'function f(...@){}', 'function f({@}){}', 'function f(a=@){}', 'function f(@=1){}', '@=>1', '(@)=>1', '(@=1)=>1', '(...@)=>1', '({@})=>1', 'async @=>1', 'async(@)=>1', 'async(...@)=>1', 'a=>@', 'class @{}', 'x=class @{}', 'class A extends @{}', 'class A{@(){}}', 'class A{static @(){}}', 'class A{get @(){}}', 'class A{static get @(){}}', 'class A{set @(a){}}', 'class A{async @(){}}', 'class A{*@(){}}', 'class A{static async*@(){}}', '@:;', '@:while(1)break @', 'while(1)continue @', '@:for(;;){continue @}', 'try{}catch(@){}', 'try{}catch({@}){}', 'for(@ in x);', 'for(@ of x);', 'for(var @ in x);', 'for(var @ of x);', 'for(let @ of x);', 'for(let @ in x);', 'for(let @;;);', 'for(const @ of x);', 'for(@;;);', 'for(x of @);', 'for(x in @);', '@++', '++@', 'typeof @', '@`a`', '`${@}`', '@\nx', 'x\n@', '@ @', '@ x', 'x @ y', '@/1', '!@', '@,@', '@?@:@', '@&&@', '@ in x', 'x in @', '@ instanceof x', '@:{break @}', 'function f(){@}', 'function*g(){@}', 'async function g(){@}', 'async function*g(){@}', 'function*g(){x=@}', 'async()=>@', 'async()=>{@}', 'function*g(){var @}', 'async function g(){var @}', 'function*g(){function @(){}}', 'async function g(){function @(){}}', 'function*g(@){}', 'async function g(@){}', 'function*g(){({@})}', 'async function g(){({@})}', 'function*g(){a.@}', 'function*g(){({@:1})}', 'function*g(){@:;}', 'function*g(){x=function @(){}}', 'async function g(){x=function @(){}}', 'function*g(){(@)=>1}', 'function*g(){@=>1}', 'async function g(){(@)=>1}', 'if(@)x', 'while(@)x', 'do @\nwhile(0)', 'switch(@){}', 'return_ = @', 'throw @', 'with(@);', 'x=@\n(y)', '@\n(y)', '@\n[y]', '@\n{y}', '@ {y}', '@(y){z}', '@ function f(){}', '@ class A{}', '@ x=1', '@ x', '@*x', '@ (x)=>y', '@ x=>y', '@ => x', 'import @', 'import(@)', 'new.@', 'function f(){new.@}', 'super.@', 'class A{m(){super.@}}', 'x={__proto__:@}', '@;@', '{@}', '{@;@}'];
export const MPOS = ['import @ from "a"', 'import{@}from "a"', 'import{@ as b}from "a"', 'import{a as @}from "a"', 'import*as @ from "a"', 'import b,{@}from "a"', 'import b,*as @ from "a"', 'import a @ "a"', 'import{a @ b}from "a"', 'import*@ b from "a"', 'export{@}', 'var @;export{@}', 'var a;export{a as @}', 'export{@}from "a"', 'export{@ as b}from "a"', 'export{a as @}from "a"', 'export * @ "a"', 'export{a}@ "a"', 'export default @', 'export var @=1', 'export let @=1', 'export function @(){}', 'export class @{}', 'export async function @(){}', 'export default function @(){}', 'export default class @{}', 'export @', 'export @ x', 'export @ function f(){}', 'export default @ function(){}', 'export default @ function f(){}', '@ a from "a"', 'import @', 'import @,{a}from "a"', 'import{@,@ as c}from "a"', 'export default @=>1'];
const near = (r, w) => { const c = [...w]; const m = r.int(9); const x = r.pick(['a', 'x', '0', '_', '$', 's', 'é', '\u200d', 'r', 'e']); if (m === 0) c.push(x); else if (m === 1) c.unshift(r.pick(['a', '_', '$', 'é', 'u'])); else if (m === 2) c.splice(r.range(1, c.length), 0, x); else if (m === 3 && c.length > 2) c.pop(); else if (m === 4) c[r.int(c.length)] = r.pick([...'abcdefinorstuw']); else if (m === 5) { const i = r.int(c.length); c[i] = c[i].toUpperCase(); } else if (m === 6 && c.length > 2) c.shift(); else if (m === 7) { const i = r.int(c.length); c.splice(i, 1, c[i], c[i]); } else { const i = r.int(c.length); const j = r.int(c.length); [c[i], c[j]] = [c[j], c[i]]; } return c.join(''); };
export const MODES = [['s', ''], ['s', '"use strict";'], ['m', '']];
const words = [];
for (const w of WORDS) { words.push(w); if (/^[a-z]/.test(w)) { words.push(esc(w, 0, 0), esc(w, [...w].length - 1, 1)); } }
const ESCCH = ['\\', 'u', '{', '}', '0', '6', '1', 'a', 'x', 'G', ' '];
const cpCase = (cp, k) => { const c = String.fromCodePoint(cp); const e = cp > 0xffff || k & 8 ? `\\u{${cp.toString(16)}}` : `\\u${cp.toString(16).padStart(4, '0')}`; return [c, 'a' + c, e, 'a' + e + 'b'].map(s => ({ src: s, goal: 's', cp })); };
// identifier characters of Unicode versions newer than giron's tables (the
// known finding) may be rejected, all others are exact
const cpJudge = (c, rec, ctx) => isNewer(c.cp) && rec.k === 'err' ? { skip: 'identifier character newer than Unicode 9 (known finding)' } : ctx.tree(c, rec);
export default {
  id: 'C08',
  rule: 'every code point (all of Unicode in the thorough run, the BMP and a sample in the quick one) as identifier start and part, raw and escaped; 66 words (reserved, strict, contextual, plain), plain and escaped in two ways, in 190 positions under sloppy, strict and module code (exhaustively); words one edit away from those; all escape-like strings of up to 6 symbols; programs rich in contextual, Unicode and escaped names. Compared with the reference parse. Distinct by source text.',
  assumptions: ['acorn 8.19 tables give ID_Start and ID_Continue'],
  relevant: v => /[\p{ID_Start}\\]/u.test(v.min),
  streams: () => [
    ...longs({ single: 600, deep: 2000 }),
    { name: 'every BMP code point', n: 0x10000 - 0x80, make: i => { const cp = i + 0x80; return cp >= 0xd800 && cp < 0xe000 ? null : cpCase(cp, i); }, judge: cpJudge, min: false },
    { name: 'every ASCII character', n: 0x80, make: i => cpCase(i, 0).concat(cpCase(i, 8)), judge: cpJudge, min: false },
    { name: 'astral code points', enum: true, n: { quick: 12000, thorough: 0x100000 }, make: (i, r, ctx) => cpCase(0x10000 + (ctx.quick ? (r.p(0.7) ? r.int(0x20000) : r.int(0x100000)) : i), i), judge: cpJudge, min: false },
    { name: 'words in positions', enum: true, n: { quick: words.length * POS.length, thorough: words.length * POS.length }, make: i => { const w = words[i % words.length], p = POS[Math.floor(i / words.length)]; return MODES.map(([goal, pre]) => ({ src: pre + p.replaceAll('@', w), goal })); } },
    { name: 'words in module positions', n: words.length * MPOS.length, make: i => { const w = words[i % words.length], p = MPOS[Math.floor(i / words.length)]; return { src: p.replaceAll('@', w), goal: 'm' }; } },
    { name: 'words with one letter escaped', n: { quick: 30000, thorough: 300000 }, make: (i, r) => { const w = r.pick(KW.concat(SOFT)); const [goal, pre] = r.pick(MODES); return { src: pre + r.pick(goal === 'm' && r.p(0.3) ? MPOS : POS).replace(/@/g, () => r.p(0.2) ? w : esc(w, r.int([...w].length), r.int(3))), goal }; } },
    { name: 'words one edit away', n: { quick: 60000, thorough: 800000 }, make: (i, r) => { const w = near(r, r.pick(KW.concat(SOFT))); const [goal, pre] = r.pick(MODES); return { src: pre + r.pick(goal === 'm' && r.p(0.2) ? MPOS : POS).replaceAll('@', r.p(0.85) ? w : esc(w, r.int([...w].length), r.int(3))), goal }; } },
    { name: 'two words', n: { quick: 30000, thorough: 400000 }, make: (i, r) => { const [goal, pre] = r.pick(MODES); const sep = r.pick([' ', '\n', '/**/', '//\n', '\u2028', '\t', '.', ',', '=', ' ', ' ']); return { src: pre + r.pick(WORDS) + sep + r.pick(WORDS) + r.pick(['', ' x', '(x)', '=>x', '{}', '[x]', '=1', '\nx', ';', ':;', '.x', '`x`']), goal }; } },
    ...allStrings('escapes', ESCCH, 6, 4, 20000, s => ({ src: '\\u' + s, goal: 's' })),
    ...allStrings('escapes inside', ESCCH, 4, 3, 10000, s => ({ src: 'a' + s + '=1', goal: 's' })),
    { name: 'random names', n: { quick: 30000, thorough: 400000 }, make: (i, r) => { let s = ''; for (let n = r.range(1, 8); n > 0; n--) s += r.w([[4, () => r.pick([...'abcxyz$_0189'])], [2, () => String.fromCodePoint(randCp(r))], [2, () => { const cp = r.p(0.5) ? r.range(0x24, 0x7a) : randCp(r); return r.p(0.5) && cp < 0x10000 ? '\\u' + cp.toString(16).padStart(4, '0') : '\\u{' + cp.toString(16) + '}'; }]])(); return { src: r.pick(POS).replaceAll('@', s), goal: 's' }; } },
    { name: 'programs', n: { quick: 8000, thorough: 120000 }, make: (i, r) => { const g = new Gen(r, { size: 20, depth: 4, module: i % 4 === 0, uni: 0.2, escId: 0.2, ctxkw: 0.4 }); const t = g.program(); return { src: r.p(0.5) ? plain(t) : decorate(t, r, { density: 0.2, asi: 0.3 }), goal: i % 4 === 0 ? 'm' : 's' }; } },
  ],
};
