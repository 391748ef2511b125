// C13 functions, classes and object literals.
import { programs, mutants, seqs, cross, nested, about } from '../lib/work.mjs';
import { longs } from '../lib/long.mjs';
import { lists } from '../lib/lists.mjs';
export const KEYS = ['a', 'get', 'set', 'static', 'async', 'constructor', 'prototype', '__proto__', 'if', 'class', 'new', 'null', 'let', 'yield', 'await', 'of', 'eval', 'arguments', '"s"', "'constructor'", '""', '0', '1.5', '0x10', '.5', '[a]', '[a,b]', '[a in b]', '["x"+y]', '[`t`]', '\\u0061b', 'g\\u0065t', 'é', '#x', '{}', '*', '...a', 'enum', 'target', 'default', 'function', 'import', 'true', 'this'];
const MODS = ['', 'static ', 'get ', 'set ', 'async ', '*', 'async*', 'static get ', 'static set ', 'static async ', 'static*', 'static async*', 'get*', 'async get ', 'get static ', 'static static ', 'async\n', 'get\n', 'set\n', 'static\n', 'async *', '* ', 'get set ', 'set get ', 'async async ', 'async static ', '**', 'get async ', 'async * get '];
const TAILS = ['(){}', '(a){}', '(a,b){}', '(...a){}', '(a=1){}', '({a}){}', '([a]){}', '(a,){}', '(a,...b){}', '(...a,){}', '(a){"use strict"}', '(a=1){"use strict"}', '({a}){"use strict"}', '(a,a){}', '', ':1', '=1', ':a=1', '(){return}', '(){yield}', '(){await a}', '(){super.a}', '(){super()}', '(){new.target}', '()', '{}', ';', '(a=yield){}', '(a=await b){}', '(){await}', '(yield){}', '(await){}', '(eval){}', '(){arguments}', '(){let a;}', ',', ':', '(a b){}', '(,){}', '(a=b=c){}', '(a=(b,c)){}', '(a=>1){}', '(a.b){}', '(1){}', '(...[a]){}', '(...{a}){}', '(...a=1){}', '(this){}', '(){}()'];
const OBJ = ['({@})', 'x={@}', '({@,b:1})', '({b,@})', '({b(){},@})', '({@,})', '({@}=x)', '({@})=>1', 'f({@})', '[{@}]', 'var{@}=x', 'function f({@}){}', '({...{@}})', 'async function*f(){({@})}', 'for({@}of x);', 'a?{@}:b'];
const CLS = ['class A{@}', 'x=class{@}', 'class A extends B{@}', 'class A{@;}', 'class A{;@}', 'class A{m(){}@}', 'class A{@ m(){}}', 'class A{@\nm(){}}', 'class A{static{@}}', 'x=class A extends(B){@}', 'async function*f(){class A{@}}', 'export default class{@}', 'export class A{@}', 'class A{@}class B{@}', 'class A{constructor(){}@}'];
const FN = ['function a@', 'x=function@', 'x=function a@', 'function*a@', 'x=function*@', 'async function a@', 'x=async function@', 'async function*a@', 'x=async function*@', 'x=@=>1', 'x=@=>{}', 'x=async@=>1', 'x=async @=>{}', 'x={a@}', 'x={get a@}', 'x={set a@}', 'x={async a@}', 'x={*a@}', 'x={async*a@}', 'class A{a@}', 'class A{constructor@}', 'class A{static a@}', 'class A{get a@}', 'class A{set a@}', 'class A{async a@}', 'class A{*a@}', 'class A extends B{constructor@}', 'export default function@', 'export default async function@', 'export function a@', '(function@)', '!function@', 'async function f(){function a@}', 'function*g(){function a@}', 'function*g(){x=function a@}', 'if(x)function a@', 'L:function a@', '"use strict";function a@'];
const PARAMS = ['()', '(a)', '(a,b)', '(a,b,)', '(...a)', '(a,...b)', '(...a,)', '(a=1)', '(a=1,b=a)', '({a})', '({a=1})', '({a:b})', '({a:b=1},c)', '({a:{b}})', '({[a]:b})', '({...a})', '([a])', '([,a])', '([a,...b])', '([a=1]=[])', '({a}={})', '(...[a,b])', '(...{a})', '(...a=1)', '(a,a)', '({a},a)', '(,)', '(a,,b)', '(a.b)', '(a[0])', '(1)', '("s")', '(this)', '((a))', '([a.b])', '({a:b.c})', '({a:1})', '({a(){}})', '({get a(){}})', '([(a)])', '({a:(b)})', '({(a)})', '({...{a}})', '({...a,b})', '([...a,b])', '([...a,])', '(yield)', '(await)', '(async)', '(let)', '(eval)', '(arguments)', '(static)', '(a=yield)', '(a=await b)', '(a=(yield))', '(a=function*(){yield})', '(a=async()=>await b)', '(a=super.b)', '(a=new.target)', '(a=arguments)', '(a=b,c=d)', '(a=b in c)', '(a=()=>{})', '(a={})', '(a=[b])', '(if)', '(a;b)', '(a b)', '(', ')', '(a', '(a,', '(...)', '(...a,b)', '(a=)', '({a:})', 'a', '(a=b?c:d)', '(\n)', '(/**/a/**/,\nb)', '({"a":b})', '({0:b})', '({if:b})', '({if})', '(of)', '(get,set)', '(enum)', '(implements)', '(\\u0061)'];
const BODIES = ['{}', '{a}', '{return}', '{return a}', '{"use strict"}', '{"use strict";with(a);}', '{"use strict";010}', '{yield}', '{yield a}', '{await a}', '{await}', '{let a;var b}', '{function c(){}}', '{super.a}', '{super()}', '{new.target}', '{arguments}', '{break}', '{}{}', '', '{', '=>1', '=>{}', ';', '{a b}', '{return\na}', '{"a";"use strict";yield}', '{let yield}', '{var await}', '{async()=>await a}', '{()=>yield}', '{function*yield(){}}', '{x=function yield(){}}'];
const HEADS = ['function', 'function*', 'async function', 'async function*', 'x=function', 'x=function*', 'x=async function', 'x=async function*', 'function a', 'function*a', 'async function a', 'async function*a', 'x=function a', 'x=function*yield', 'x=async function await', 'function yield', 'function*yield', 'function await', 'async function await', 'x=async function yield', 'async\nfunction a', 'function async', 'function get', 'function let', 'function eval', 'function static', 'function of', 'function if', 'x={a', 'x={get a', 'x={set a', 'x={async a', 'x={*a', 'x={async*a', 'class A{a', 'class A{static a', 'class A{get a', 'class A{set a', 'class A{constructor', 'class A extends B{constructor', 'class A{async a', 'class A{*a', 'class A{async*a', 'x=', 'x=async', 'x=async ', '(', '(async', 'export default function', 'export default async function*', 'export function*a', 'async function\na', 'function*\na', 'function /**/ a', 'async/**/function a'];
const close = h => /^(x=\{|class)/.test(h) ? '}' : /^\(/.test(h) ? ')' : '';
const TYPES = new Set(['FunctionDeclaration', 'FunctionExpression', 'ArrowFunctionExpression', 'ClassDeclaration', 'ClassExpression', 'ClassBody', 'MethodDefinition', 'ObjectExpression', 'Property', 'SpreadElement', 'Super', 'MetaProperty', 'ReturnStatement', 'YieldExpression', 'AwaitExpression']);
const MODES = [['s', ''], ['s', '"use strict";'], ['m', '']];
const MEM = { size: 30, p: { object: 8, func: 3, gen: 2, asyncfn: 2, asyncgen: 2, class: 5, id: 6 }, s: { func: 4, gen: 3, asyncfn: 3, asyncgen: 2, class: 5 }, e: { arrow: 4, asyncArrow: 3 }, ctxkw: 0.2 };
export default {
  id: 'C13',
  rule: '29 modifier prefixes x 44 member names x 47 member tails in 15 class and 16 object positions (sampled in the quick run), 55 function heads x 80 parameter lists x 33 bodies (likewise), all token sequences of up to 4 (5 thorough) symbols inside class and object braces and around arrows, function- and class-rich generated programs and their token mutants; whole trees compared with the reference parse. Distinct by source text.',
  assumptions: ['acorn 8.19 as patched in /verif/vendor'],
  relevant: about(TYPES, null),
  streams: () => {
    const M = MODS.length * KEYS.length * TAILS.length;
    const mem = k => MODS[k % MODS.length] + KEYS[Math.floor(k / MODS.length) % KEYS.length] + TAILS[Math.floor(k / MODS.length / KEYS.length)];
    const pos = [...OBJ, ...CLS];
    const F = HEADS.length * PARAMS.length * BODIES.length;
    return [
      ...longs(),
    ...lists('parameters class_members members'),
      { name: 'members in objects', enum: true, n: M, make: i => ({ src: '({' + mem(i) + '})', goal: 's' }) },
      { name: 'members in classes', enum: true, n: M, make: i => ({ src: 'class A{' + mem(i) + '}', goal: 's' }) },
      { name: 'members in positions', enum: true, n: { quick: 100000, thorough: M * pos.length }, make: (i, r, ctx) => { const k = ctx.quick ? r.int(M * pos.length) : i; const p = pos[Math.floor(k / M)]; const m = mem(k % M); const g = /^export/.test(p) ? 'm' : 's'; return { src: p.replaceAll('@', () => m), goal: g }; } },
      { name: 'several members', n: { quick: 60000, thorough: 600000 }, make: (i, r) => { const one = () => r.pick(MODS) + r.pick(KEYS) + r.pick(TAILS.slice(0, 17)); const good = () => r.p(0.6) ? r.pick(['', 'static ', '*', 'async ', 'async*', 'get ', 'set ']) + r.pick(KEYS.slice(0, 27)) + r.pick(['(){}', '(a){}']) : one(); const c = r.p(0.5); let s = []; for (let n = r.range(2, 5); n > 0; n--) s.push(r.p(0.8) ? good() : r.pick(['a', 'a:1', '...b', '"s":1', '[a]:b', 'get', 'set', 'async', 'static', ''])); const [goal, p] = r.pick(MODES); return { src: p + (c ? 'class A{' + s.join(r.pick(['', ';', '\n', ' ', ';;'])) + '}' : '({' + s.join(r.pick([',', ',', ',\n', ' , '])) + '})'), goal }; } },
      { name: 'functions', enum: true, n: { quick: 90000, thorough: F }, make: (i, r, ctx) => { const k = ctx.quick ? r.int(F) : i; const h = HEADS[k % HEADS.length]; const goal = /^export/.test(h) ? 'm' : 's'; return { src: h + PARAMS[Math.floor(k / HEADS.length) % PARAMS.length] + BODIES[Math.floor(k / HEADS.length / PARAMS.length)] + close(h), goal }; } },
      { name: 'heads and parameters', enum: true, n: HEADS.length * PARAMS.length, make: i => { const h = HEADS[i % HEADS.length], p = PARAMS[Math.floor(i / HEADS.length)]; return MODES.map(([goal, m]) => ({ src: m + h + p + '{}' + close(h), goal })); } },
      cross('parameters and bodies in forms', FN, PARAMS.flatMap(p => [p + '{}', p])),
      cross('bodies in forms', FN, BODIES.map(b => '(a)' + b)),
      ...seqs('class elements', ['static', 'async', 'get', 'set', '*', 'a', '[b]', 'constructor', '(){}', '(a){}', ';', '\n', '"s"', '='], ['class A{@}'], { max: 7, full: 4, tfull: 5, sample: 15000 }),
      ...seqs('object members', ['async', 'get', 'set', '*', 'a', '[b]', '(){}', '(a){}', ':1', ',', '\n', '...', '=1', '0'], ['({@})'], { max: 7, full: 4, tfull: 5, sample: 15000 }),
      ...seqs('class heads', ['class', 'A', 'extends', 'B', '{}', '{', '}', '(', ')', ',', '.c', '()', '\n', 'let', 'static'], ['@', 'x=@'], { max: 6, full: 3, tfull: 4, sample: 12000 }),
      ...seqs('function heads', ['function', 'async', '*', 'a', '(b)', '{}', '\n', '()', 'yield', 'await', ';', ','], ['@', 'x=@', 'export default @'].map(w => [w, w[0] === 'e' ? 'm' : 's']), { max: 6, full: 3, tfull: 5, sample: 12000 }),
      ...seqs('arrows', ['async', '(', ')', 'a', '=>', '{}', ',', '...', '=', '\n', '{', '}', 'await', '1'], ['@', 'x=@'], { max: 7, full: 3, tfull: 5, sample: 15000 }),
      nested('nested functions', FN.filter(f => /@$/.test(f) === false || true).map(f => f.replace('@', '(){@}')).filter(f => !/=>1|=>\{\}/.test(f)).concat(['x=()=>{@}', 'x=async()=>{@}', 'x=a=>{@}', '({a:@})', 'class A{[@](){}}', 'class A{m(){@}}', 'x=class{m(){@}}', '({m(){@}})', '(@)', '[@]', 'f(@)', '@;@', '@\n@']), FN.flatMap(f => ['(){}', '(a){}'].map(p => f.replace('@', p))).concat(['this', 'super.x', 'yield', 'await x', 'return', 'new.target', 'class A{}', '({a,b(){}})', '({get a(){}})']), 50000),
      programs(MEM, 16000),
      mutants(MEM, 30000),
    ];
  },
};
