// C14 destructuring patterns and arrow parameters.
import { programs, mutants, seqs, cross, nested, about } from '../lib/work.mjs';
import { longs } from '../lib/long.mjs';
import { lists } from '../lib/lists.mjs';
// positions that read the text as literal, as assignment pattern, as arrow parameters, as binding
export const PPOS = ['@', '(@)', 'x=@', '@=0', '(@=0)', 'x=@=0', '@=x=0', '[@]', '[@]=0', '([@]=0)', '[@=1]=0', '[...@]=0', '[[@]]=0', '[{a:@}]=0', '({a:@})', '({a:@}=0)', '({a:@=1}=0)', '({@})', '({@}=0)', '({@,b}=0)', '({...@})', '({...@}=0)', '({[@]:a}=0)', '(@)=>0', '(@,b)=>0', '(b,@)=>0', '(@=1)=>0', '(...@)=>0', '([@])=>0', '([@]=1)=>0', '({@})=>0', '({a:@})=>0', '({a:@=1})=>0', '([...@])=>0', '({...@})=>0', '@=>0', 'async @=>0', 'async(@)', 'async(@)=>0', 'async(@,b)=>0', 'async(...@)=>0', 'async([@])=>0', 'async({@})=>0', 'f(@)', 'f(@=0)', 'f([@]=0)', 'for(@ of x);', 'for(@ in x);', 'for([@]of x);', 'for({@}of x);', 'for({a:@}in x);', 'for(var @ of x);', 'for(let @ of x);', 'for(const @ in x);', 'for(@;;);', 'for(@=0;;);', 'for(var @=0;;);', 'var @=0', 'let @=0', 'const @=0', 'var[@]=0', 'var{@}=0', 'var{a:@}=0', 'var[...@]=0', 'let[@=1]=0', 'var @', 'function f(@){}', 'function f(@=0){}', 'function f(...@){}', 'function f([@]){}', 'function f({@}){}', 'try{}catch(@){}', 'try{}catch([@]){}', 'try{}catch({@}){}', 'class A{m(@){}}', 'class A{set m(@){}}', '({m(@){}})', '({set m(@){}})', 'function*g(){[@]=0}', 'function*g(){(@)=>0}', 'async function g(){[@]=0}', 'async function g(){(@)=>0}', 'async function g(){async(@)=>0}', 'a?[@]=0:b', 'a?(@)=>0:b', 'a?b:(@)=>0', '(@)\n=>0', '((@))=>0', '((@)=>0)', '((@)=0)', '([@])=0', '({@})=0', '[(@)]=0', '({a:(@)}=0)', '[@]+=0', '[@]++', '--{@}', '({@})\n=0', '`${[@]=0}`', '[@].a=0', '({@}).a=0', '[@]()', '[[@].a]=0', '[{@}.a]=0', '({a:{@}.b}=0)', '({a:[@].b}=0)', '({a:{@}})', '[[@]=0]', '[[@]=0]=0', '({a:[@]=0})', '({a:[@]=0}=0)', '(a=[@])=>0', '(a={@})=>0', '(a=([@]=0))=>0', '(a=(@)=>0)=>0', 'export var @=0'];
export const PATS = ['a', 'a,b', 'a=1', 'a=b=c', 'a,', ',a', 'a,,b', ',', ',,', '', '...a', 'a,...b', '...a,b', '...a,', '...a=1', 'a.b', 'a[b]', 'a().b', 'a.b=1', 'this.a', 'super.a', 'a()', 'new a', 'new a.b', '1', '"s"', '`t`', 'this', 'null', '(a)', '(a.b)', '(a)=1', '(a=1)', '((a))', '(a,b)', '[a]', '[a,b]', '[a=1]', '[a]=[]', '[...a]', '[...a,]', '[...a,b]', '[,]', '[]', '[]=1', '[[a]]', '[{a}]', '[a.b]', '[(a)]', '([a])', '({a})', '{}', '{}=1', '{a}', '{a}={}', '{a,b}', '{a,}', '{a=1}', '{a:b}', '{a:b=1}', '{a:b.c}', '{a:b[c]=1}', '{a:{b}}', '{a:[b]}', '{a:{b}={}}', '{"a":b}', '{0:b}', '{[a]:b}', '{[a+b]:c=1}', '{...a}', '{a,...b}', '{...a,b}', '{...a,}', '{...a.b}', '{...[a]}', '{...{a}}', '{...(a)}', '{...a=1}', '{a:1}', '{a:b()}', '{a:(b)}', '{a:(b)=1}', '{a:(b=1)}', '{a:(b.c)}', '{a:[b]=1}', '{a(){}}', '{get a(){}}', '{async a(){}}', '{*a(){}}', '{if:a}', '{if}', '{if=1}', '{yield}', '{await}', '{eval}', '{arguments}', '{async}', '{get}', '{set:a}', '{let}', '{static}', '{get=1}', '{async=1}', '{a:b,c:d=1,...e}', '{a:{b:{c}}}', '{a:[{b:[c]}]}', '[{a:[b]}]', '{__proto__:a}', '{__proto__:a,__proto__:b}', '{a=1,b=2}', '{a:b=1,c=2}', 'a+b', '-a', 'a++', 'a?b:c', 'a=>b', '()=>a', '(a)=>b', 'function(){}', 'class{}', 'async', 'async()', 'async a=>b', 'yield', 'yield a', 'await', 'await a', 'eval', 'arguments', 'let', 'static', 'a in b', 'a&&b', 'a=b in c', 'a=yield', 'a=await b', '[a=yield]', '{a=yield}', '{a:b=await c}', '{[yield]:a}', '{a=function*(){yield}}', '\\u0061', '{\\u0061}', '{a:b}=c,d', '[a]=[b]=c', '{a}={b}=c', 'a={b=1}', 'a=[{b=1}]', 'a={b=1}={}', 'a=({b=1})', 'a=({b=1}={})', 'a={b:c=1}', '[a,b]=[c,{d=1}]', '[a=[b]]', '[a={b}]', '{a={b=1}}', '{a={b=1}={}}', '{a:b={c=1}}', '[...[a]]', '[...{a}]', '[...a.b]', '[...a=1]', '[...(a)]', '[...[a,...b]]', '[...[a]=1]', 'import.a', 'new.target', 'a`t`', 'a\n', '/**/a', 'a\n,b', '...\na', 'of', 'a:b', 'a;b', '...', '[...]', '{...}', '{a:}', '{:a}', '{a b}', '[a b]', '{a.b}', '{a[b]}', '{1}', '{"a"}', '{[a]}', '{a:b:c}', '{a==1}', '{a+=1}', '{this}', '{null}', '{true=1}', '{enum}', '{implements}', '({a}=1)', '([a]=1)', '[[a]=1]=2', '[({a})]', '[([a])]', '[(a,b)]', '[(a=1)]', '[()=>a]', '{a:()=>b}', '{a:b?c:d}', '{a:-b}', '{a:...b}', '[a,...[b]]', '[a,,]', '[,a]', '{a:a=a}', '{a:b}.c', '{a:b}[c]', '[a].b', '[a][b]', '{a}.b=1', '[a]()', '[a]`t`', '[a]++'];
const TYPES = new Set(['ArrayPattern', 'ObjectPattern', 'AssignmentPattern', 'RestElement', 'ArrowFunctionExpression', 'AssignmentExpression', 'ArrayExpression', 'ObjectExpression', 'Property', 'SpreadElement', 'ForOfStatement', 'ForInStatement']);
const gen = (r, d) => { // random pattern-like literal
  if (d <= 0) return r.w([[6, () => r.pick(['a', 'b', 'c'])], [2, () => r.pick(['a.b', 'a[b]', 'f().x', 'this.y'])], [0.5, () => r.pick(PATS)]])();
  const el = () => r.w([[6, () => gen(r, d - 1)], [3, () => gen(r, d - 1) + '=' + (r.p(0.7) ? '1' : gen(r, d - 1))], [0.4, () => '(' + gen(r, d - 1) + ')']])();
  const n = r.int(4);
  if (r.p(0.5)) { const s = []; for (let i = 0; i < n; i++) s.push(r.p(0.12) ? '' : el()); if (r.p(0.3)) s.push('...' + el()); if (r.p(0.15)) s.push(r.p(0.5) ? '' : el()); return '[' + s.join(',') + ']'; }
  const s = []; for (let i = 0; i < n; i++) s.push(r.w([[4, () => r.pick(['a', 'b', 'c', '"s"', '0', '[k]', 'if', 'get', 'async']) + ':' + el()], [3, () => r.pick(['a', 'b', 'get', 'set', 'async', 'of'])], [2, () => r.pick(['a', 'b', 'get', 'async', 'static']) + '=1'], [0.3, () => r.pick(['m(){}', 'get x(){}', 'async y(){}', '*z(){}', '__proto__:a'])]])());
  if (r.p(0.25)) s.push('...' + el()); if (r.p(0.1)) s.push(r.p(0.5) ? '' : 'z');
  return '{' + s.join(',') + '}';
};
const P = { e: { pattAssign: 6, arrow: 6, asyncArrow: 3, assign: 4 }, s: { forin: 3, forof: 3, var: 4, lex: 4, try: 3 }, p: { array: 6, object: 6, paren: 3 } };
export default {
  id: 'C14',
  rule: '205 literal, pattern and near-pattern texts in 128 positions that read them as literal, assignment target, arrow or async arrow parameters, for head target or binding, in sloppy, strict and module code (exhaustively); random nested pattern texts in those positions; all token sequences of up to 4 (5 thorough) symbols inside brackets, braces and parentheses; pattern-rich generated programs and token mutants; whole trees compared with the reference parse. The same text in assignment and binding position is compared with itself through the reference. Distinct by source text.',
  assumptions: ['acorn 8.19 as patched in /verif/vendor'],
  relevant: about(TYPES, null),
  streams: () => [
    ...longs(),
    ...lists('elements members parameters declarators'),
    cross('patterns in positions', PPOS, PATS),
    { name: 'random patterns', n: { quick: 60000, thorough: 800000 }, make: (i, r) => { const s = gen(r, r.range(1, 4)); if (s.length > 1500) return null; const [goal, p] = r.pick([['s', ''], ['s', ''], ['s', '"use strict";'], ['m', '']]); return { src: p + r.pick(PPOS).replaceAll('@', () => s), goal }; } },
    { name: 'pattern pairs', n: { quick: 40000, thorough: 500000 }, make: (i, r) => { const a = r.pick(PATS), b = r.pick(PATS); const [goal, p] = r.pick([['s', ''], ['s', ''], ['s', '"use strict";'], ['m', '']]); return { src: p + r.pick(PPOS).replaceAll('@', () => r.pick([`${a},${b}`, `${a}=${b}`, `[${a},${b}]`, `{x:${a},y:${b}}`, `{x:${a}=${b}}`, `[${a}=${b}]`, `{[${a}]:${b}}`, `...${a},${b}`, `${a},...${b}`, `[${a}]=[${b}]`, `{x:[${a}],...${b}}`, `(${a},${b})`, `(${a})=>${b}`, `${a}=>${b}`, `${a}?${b}:c`, `f(${a},${b})`])), goal }; } },
    ...seqs('array contents', 'a , ... = [ ] ( ) .b {} 1', ['[@]=0', '([@])=>0', '[@]', 'for([@]of x);', 'var[@]=0', '[[@]]=0', 'async([@])=>0'], { max: 6, full: 3, tfull: 5, sample: 12000 }),
    ...seqs('object contents', 'a , ... = : { } [b] () 1 get (){}', ['({@}=0)', '({@})=>0', '({@})', 'for({@}of x);', 'var{@}=0', '[{@}]=0', 'async({@})=>0'], { max: 6, full: 3, tfull: 4, sample: 15000 }),
    ...seqs('parenthesised lists', 'a , ... = ( ) [b] {c} => async 1', ['(@)=>0', '(@)', 'async(@)=>0', 'async(@)', '(@)=0', 'f((@)=>0)', '(@)\n=>0'], { max: 6, full: 3, tfull: 4, sample: 15000 }),
    ...seqs('assignments', 'a = [ ] { } , : ( )', ['@', 'x=@', '(@)'], { max: 7, full: 4, tfull: 6, sample: 12000 }),
    ...seqs('bindings', 'a , ... = : { } [ ] 1', ['var @', 'var @=0', 'function f(@){}', 'try{}catch(@){}', 'for(let @ of x);', 'let @=0', 'class A{set m(@){}}'], { max: 6, full: 3, tfull: 4, sample: 15000 }),
    nested('nested positions', PPOS, PATS, 50000, 500000, [2, 3]),
    programs(P, 16000),
    mutants(P, 30000),
  ],
};
