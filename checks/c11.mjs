// C11 expression structure.
import { programs, mutants, seqs, cross, nested, about, POOL } from '../lib/work.mjs';
import { nth } from '../lib/lex.mjs';
import { longs } from '../lib/long.mjs';
import { lists } from '../lib/lists.mjs';
const BIN = ['+', '-', '*', '/', '%', '**', '<', '>', '<=', '>=', '==', '!=', '===', '!==', '<<', '>>', '>>>', '&', '|', '^', '&&', '||', 'instanceof', 'in'];
const ASG = ['=', '+=', '-=', '*=', '/=', '%=', '**=', '<<=', '>>=', '>>>=', '&=', '|=', '^='];
const UN = ['+', '-', '~', '!', 'typeof ', 'void ', 'delete ', '++', '--', 'await ', 'yield ', 'new ', 'yield*', '...'];
const OPND = ['a', '1', '(a)', '-a', '!a', 'typeof a', 'void a', 'delete a.b', '++a', 'a++', '--a.b', 'a.b--', 'a.b', 'a[b]', 'a()', 'a.b()', 'a(b,c)', 'a(...b)', 'new a', 'new a()', 'new a.b', 'new a.b()', 'new a().b', 'new new a', 'new new a()()', 'a`t`', 'new a`t`', 'await a', 'yield', 'yield a', 'yield*a', 'a=b', 'a+=b', 'a?b:c', 'a,b', '(a,b)', 'a=>b', '()=>{}', '(a)=>b', 'async a=>b', 'async()=>{}', 'function(){}', 'class{}', '{}', '{a:1}', '[]', '[a,b]', '/r/g', '"s"', '`t`', 'this', 'null', 'async', 'async()', 'async(a).b', 'a.b.c.d', 'a()()', 'a[b][c]', '(a)()', '(a).b', '(a=b)', '(a?b:c)', '(()=>{})', '(yield a)', '(await a)', 'new (a())', 'new (a.b())()', 'a**b', '(-a)', '(a**b)', '-(a)', 'let', 'import(a)', 'super.a', 'new.target', '+ +a', '- -a', '!!a', 'a||b', 'a&&b', 'a in b', 'a instanceof b', 'function*(){}', 'async function(){}'];
const WR = ['@', 'x=@', '(@)', 'f(@)', 'function*g(){x=@}', 'async function f(){x=@}', 'async function*f(){(@)}', 'var x=@', 'a?@:b', 'a=>@', 'for(@;;);', 'for(x of @);', 'for(x in @);', 'for(var x=@;;);', '[@]', '({a:@})', '`${@}`', 'if(@);', 'throw @', 'return_=[@,@]', 'class A extends B{m(){x=@}}'];
const TYPES = new Set(['BinaryExpression', 'LogicalExpression', 'UnaryExpression', 'UpdateExpression', 'ConditionalExpression', 'AssignmentExpression', 'SequenceExpression', 'MemberExpression', 'CallExpression', 'NewExpression', 'AwaitExpression', 'YieldExpression', 'ArrayExpression', 'SpreadElement', 'TaggedTemplateExpression', 'ThisExpression', 'MetaProperty', 'Super']);
const chain = (ops, opnds) => opnds[0] + ops.map((o, i) => ` ${o} ${opnds[i + 1]}`).join('');
const rnd = (r, d) => { // random expression text, forbidden combinations included
  if (d <= 0) return r.pick(['a', 'b', '1', 'this', '(a)', 'a.b', 'f()']);
  const e = () => rnd(r, d - r.range(1, 2));
  return r.w([
    [6, () => `${e()} ${r.pick(BIN)} ${e()}`], [2, () => `${r.pick(UN)}${e()}`], [1, () => `${e()}${r.pick(['++', '--'])}`], [2, () => `${e()}?${e()}:${e()}`],
    [2, () => `${r.p(0.8) ? r.pick(['a', 'a.b', 'a[b]', '(a)', '[a]', '({a})', 'f()']) : e()} ${r.pick(ASG)} ${e()}`], [2, () => `(${e()})`], [1, () => `${e()},${e()}`], [1, () => `${e()}.x`], [1, () => `${e()}[${e()}]`], [1.5, () => `${e()}(${r.p(0.5) ? e() : ''})`],
    [1, () => `new ${e()}${r.p(0.5) ? `(${e()})` : ''}`], [0.7, () => `${r.pick(['a', '()', '(a,b)', 'async a', 'async()'])}=>${e()}`], [0.5, () => `[${e()},${e()}]`], [0.3, () => `{a:${e()}}`], [0.4, () => e() + '`${' + e() + '}`'], [0.5, () => `await ${e()}`], [0.6, () => `yield${r.pick([' ', '* ', ''])}${e()}`],
  ])();
};
export default {
  id: 'C11',
  rule: 'all chains of up to three of the 24 binary operators (four in the thorough run), all pairs of 84 operand forms around each binary, assignment, conditional and comma operator, every unary before every operand and operator, all short token sequences over eight operator alphabets, random expression texts including forbidden combinations, generated programs and their token mutants; whole trees compared with the reference parse. Distinct by source text.',
  assumptions: ['acorn 8.19 as patched in /verif/vendor'],
  relevant: about(TYPES, null),
  streams: () => [
    ...longs(),
    ...lists('tails'),
    { name: 'chains of three', n: BIN.length ** 3, make: i => ({ src: chain([BIN[i % 24], BIN[Math.floor(i / 24) % 24], BIN[Math.floor(i / 576)]], ['a', 'b', 'c', 'd']), goal: 's' }) },
    { name: 'chains of four', enum: true, n: { quick: 40000, thorough: BIN.length ** 4 }, make: (i, r, ctx) => { const k = ctx.quick ? r.int(24 ** 4) : i; return { src: chain([BIN[k % 24], BIN[Math.floor(k / 24) % 24], BIN[Math.floor(k / 576) % 24], BIN[Math.floor(k / 13824)]], ['a', 'b', 'c', 'd', 'e']), goal: 's' }; } },
    { name: 'long chains', n: { quick: 12000, thorough: 150000 }, make: (i, r) => { const n = r.range(3, 14); const few = [r.pick(BIN), r.pick(BIN), r.pick(BIN)]; return { src: r.pick(WR).replaceAll('@', chain(Array.from({ length: n }, () => r.p(0.5) ? r.pick(few) : r.pick(BIN)), Array.from({ length: n + 1 }, (_, j) => r.p(0.7) ? 'v' + j : r.pick(OPND)))), goal: 's' }; } },
    { name: 'operands around binary operators', enum: true, n: { quick: 60000, thorough: BIN.length * OPND.length ** 2 }, make: (i, r, ctx) => { const k = ctx.quick ? r.int(BIN.length * OPND.length ** 2) : i; const n = OPND.length; const s = `${OPND[k % n]} ${BIN[Math.floor(k / n / n)]} ${OPND[Math.floor(k / n) % n]}`; return { src: (k & 3) === 0 ? `async function*_(){x=${s}}` : (k & 3) === 1 ? `function*_(){return ${s}}` : (k & 3) === 2 ? `x=${s}` : `(${s})`, goal: 's' }; } },
    { name: 'operands around assignment operators', enum: true, n: { quick: 50000, thorough: ASG.length * OPND.length ** 2 * 2 }, make: (i, r, ctx) => { const k = ctx.quick ? r.int(ASG.length * OPND.length ** 2 * 2) : i; const n = OPND.length, j = k >> 1; const s = `${OPND[j % n]} ${ASG[Math.floor(j / n / n)]} ${OPND[Math.floor(j / n) % n]}`; return { src: k & 1 ? `async function*_(){x=${s}}` : `(${s})`, goal: 's' }; } },
    { name: 'conditional and comma', n: { quick: 60000, thorough: 400000 }, make: (i, r) => { const o = () => r.pick(OPND); const s = r.pick([() => `${o()} ? ${o()} : ${o()}`, () => `${o()} , ${o()}`, () => `${o()} ? ${o()} : ${o()} ? ${o()} : ${o()}`, () => `${o()} ? ${o()} ? ${o()} : ${o()} : ${o()}`, () => `a = ${o()} , ${o()} = b`, () => `${o()} ${r.pick(BIN)} ${o()} ? ${o()} : ${o()} ${r.pick(BIN)} ${o()}`, () => `a ${r.pick(ASG)} b ${r.pick(ASG)} ${o()}`])(); return { src: r.pick(WR).replaceAll('@', () => s), goal: r.p(0.1) ? 'm' : 's' }; } },
    cross('operands in expression positions', WR, OPND),
    cross('prefixes before operands', UN.flatMap(u => [u + '@', 'x=' + u + '@**b', 'x=a**' + u + '@', 'async function*_(){x=' + u + '@}', 'function*_(){f(' + u + '@)}']), OPND),
    cross('two prefixes before operands', UN.flatMap(u => UN.map(v => `async function*_(){x=${u} ${v} @}`)), OPND.slice(0, 40), [['s', '']]),
    cross('suffixes after operands', ['++', '--', '.b', '[b]', '()', '`t`', '.b()', '().b', '?b:c', '\n++', '\n(b)', '\n[b]', '\n`t`', '\n.b', '=>b', '\n=>b', ' a', '\na', '=b', '++.b', '++()', '.b=c', '()=c', ' in b', ' of b', '.#b', '.1', '..b', '?.b', '??b', '.if', '.new', '[b,c]', '[]', '(b,)', '(,b)', '(,)', '(...b)', '(...)', '(b c)', '[b c]', ')', ']', '}', '!', '!b', '~b', ':b', '.b`t`', '`t``t`', '()`t`', '`t`()', '.b++', '[b]--', '()++', '`t`++', '`t`=1', '()`t`=1'].flatMap(s => ['@' + s, 'x=@' + s, 'async function*_(){x=@' + s + '}', '(@)' + s]), OPND),
    ...seqs('unary and power', 'a - ** ( ) + ! ++', ['x=@', 'async()=>{x=@}'], { max: 7, full: 4, tfull: 6 }),
    ...seqs('conditional, assignment, arrow', 'a ? : = , ( ) =>', ['@', 'x=@'], { max: 7, full: 5, tfull: 6 }),
    ...seqs('members, calls, new', 'a . ( ) [ ] new `t` ,', ['@', 'x=@'], { max: 7, full: 4, tfull: 6 }),
    ...seqs('updates', 'a ++ -- + - ! \\n ( )', ['@', 'x=@'], { max: 7, full: 4, tfull: 6 }),
    ...seqs('yield', 'yield a * , ( ) ? : = + / \\n', ['function*g(){@}', 'function*g(){x=@}', 'function f(){@}'], { max: 6, full: 3, tfull: 4 }),
    ...seqs('await', 'await a * ( ) - ** ? : = => async \\n', ['async function g(){@}', 'async()=>{x=@}', 'function f(){@}'], { max: 6, full: 3, tfull: 4 }),
    ...seqs('in and relational', 'a in instanceof < ! ( ) ? : ; =', ['for(@;;);', 'for(@);', 'x=@', 'for(var x=@;;);', 'for(var x=@);'], { max: 6, full: 3, tfull: 4 }),
    ...seqs('mixed operators', 'a + * ** && || ? : , = == < ( )', ['x=@'], { max: 7, full: 3, tfull: 5, sample: 12000 }),
    ...seqs('objects and arrays', 'a { } [ ] ( ) , : ... = . 1', ['x=@', '(@)'], { max: 7, full: 3, tfull: 5, sample: 9000 }),
    { name: 'random expressions', n: { quick: 60000, thorough: 800000 }, make: (i, r) => { const s = rnd(r, r.range(2, 6)); return s.length > 2000 ? null : { src: r.pick(WR).replaceAll('@', () => s), goal: r.p(0.1) ? 'm' : 's' }; } },
    nested('nested operands', WR.concat(BIN.map(b => `@ ${b} c`), BIN.map(b => `c ${b} @`), UN.map(u => u + '@'), ['@?b:c', 'a?@:c', 'a?b:@', '@.b', '@[c]', 'a[@]', '@()', 'a(@)', 'a(b,@)', 'a=@', 'a+=@', '@,a', 'a,@', 'new @', 'new @()', '@`t`', 'a`${@}`', '@++', '--@', 'a=>@', '(@)=>a', '(a=@)=>b', 'function(){@}', '[@,@]', '({a:@,b:@})', '({[@]:@})', 'async a=>@', '(@)']).filter(t => !/^(if|for|throw|class|var|return_)/.test(t)), OPND, 60000),
    programs({ e: { bin: 12, cond: 3, assign: 4 }, unary: 0.35, update: 0.15, chain: 0.5, newx: 0.12, s: { expr: 14, return: 3 }, p: { id: 12, func: 0.3, object: 1, array: 1 } }, 8000),
    mutants({ e: { bin: 12, cond: 3, assign: 4 }, unary: 0.35, update: 0.15, chain: 0.5, newx: 0.12, s: { expr: 20 }, p: { func: 0.3 } }, 25000),
  ],
};
