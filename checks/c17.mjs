// C17 context-dependent constructs.
import { programs, mutants, seqs, cross, nested, about, program, mutate, glue } from '../lib/work.mjs';
import { text } from '../lib/gen.mjs';
import { longs } from '../lib/long.mjs';
import { lists } from '../lib/lists.mjs';
// contexts that enter, keep or leave function, loop, switch, generator, async, strict and class contexts
export const CTX = ['@', '{@}', 'function f(){@}', 'function*g(){@}', 'async function f(){@}', 'async function*f(){@}', 'x=function(){@}', 'x=function*(){@}', 'x=async function(){@}', 'x=async function*(){@}', 'x=()=>{@}', 'x=a=>{@}', 'x=async()=>{@}', 'x=async a=>{@}', 'x=async(a,b)=>{@}', '({m(){@}})', '({get m(){@}})', '({set m(a){@}})', '({*m(){@}})', '({async m(){@}})', '({async*m(){@}})', 'class A{m(){@}}', 'class A{constructor(){@}}', 'class A extends B{constructor(){@}}', 'class A{static m(){@}}', 'class A{get m(){@}}', 'class A{*m(){@}}', 'class A{async m(){@}}', 'class A{async*m(){@}}', 'x=class{m(){@}}', 'while(1){@}', 'while(1)@', 'do{@}while(1)', 'do @\nwhile(1)', 'for(;;){@}', 'for(;;)@', 'for(a in b){@}', 'for(a of b)@', 'for(var a of b){@}', 'switch(a){case 1:@}', 'switch(a){default:@}', 'if(a){@}', 'if(a)@', 'if(a)b;else @', 'try{@}catch(e){}', 'try{}catch(e){@}', 'try{}finally{@}', 'L:{@}', 'L:@', 'L:while(1){@}', 'L:while(1)@', 'L:for(a of b){@}', 'L:switch(a){case 1:@}', 'L:M:while(1){@}', 'L:if(a){@}', 'with(a)@', 'with(a){@}', '"use strict";@', '"a";"use strict";@', '"use\\x20strict";@', '("use strict");@', 'function f(){"use strict";@}', 'x=()=>{"use strict";@}', '({m(){"use strict";@}})', 'function*g(){"use strict";@}', '{"use strict";@}', '@;"use strict"', 'function f(){"use strict"}@', 'class A{}@', 'class A{m(){}}@', 'x=class{}\n@', 'function*g(){}@', 'async function f(){}@', 'x=function*(){};@', 'x=async()=>{};@', 'x=async()=>1\n@', 'while(1){}@', 'while(1);@', 'do;while(1)\n@', 'for(;;){}@', 'switch(a){}@', 'switch(a){case 1:}@', 'L:{}@', 'L:;@', 'L:while(1);@', 'function f(){}@', 'x=()=>{}\n@', '({m(){}});@', '({*m(){}});@', '({async m(){}});@', 'function f(a=function*(){yield}){@}', 'function f(a=async()=>{await b}){@}', 'function*g(){function f(){@}}', 'async function g(){function f(){@}}', 'function*g(){x=()=>{@}}', 'async function g(){x=()=>{@}}', 'function*g(){x=async()=>{@}}', 'function*g(){({m(){@}})}', 'async function g(){class A{m(){@}}}', 'function*g(){function*h(){}@}', 'async function g(){async function h(){}@}', 'async function g(){x=async()=>{};@}', 'function*g(){x=function(){};@}', 'async function g(){x=function(){};@}', 'async function g(){x=()=>{};@}', 'function*g(){class A{m(){}}@}', 'function f(){while(1){}@}', 'while(1){function f(){@}}', 'while(1){x=()=>{@}}', 'while(1){x=function(){@}}', 'while(1){class A{m(){@}}}', 'while(1){({m(){@}})}', 'while(1){function f(){}@}', 'while(1){x=()=>{};@}', 'while(1){while(1){}@}', 'while(1){switch(a){}@}', 'while(1){L:{}@}', 'switch(a){case 1:switch(b){}@}', 'switch(a){case 1:function f(){@}}', 'L:{function f(){@}}', 'L:{x=()=>{@}}', 'L:while(1){function f(){}@}', 'L:while(1){x=()=>{};@}', 'L:while(1){M:{}@}', 'function f(){L:{}@}', 'function f(){L:while(1){@}}', 'function f(){function g(){}@}', 'function f(){x=()=>{};@}', 'x=()=>{x=function(){};@}', 'class A{m(){}n(){@}}', '({m(){},n(){@}})', '({*m(){},n(){@}})', '({async m(){},n(){@}})', 'class A{*m(){}n(){@}}', 'class A{async m(){}n(){@}}', 'class A{static async*m(){}n(){@}}', 'try{}catch({a}){@}', 'x=`${()=>{@}}`', 'x=[function(){@}]', 'f(function(){@})', 'f(async function(){@})', 'f(function*(){@})', 'x={a:function*(){@}}', 'if(a)function f(){@}', 'L:function f(){@}', 'export function f(){@}', 'export default function(){@}', 'export default async function(){@}', 'export default class{m(){@}}'];
export const FRAG = ['return', 'return a', 'break', 'continue', 'break L', 'continue L', 'break M', 'continue M', 'break X', 'yield', 'yield a', 'yield*a', 'x=yield', 'x=yield a', '(yield)', '(yield a)', 'f(yield)', 'yield\na', 'yield:1', 'var yield', 'let yield', 'function yield(){}', 'x=function yield(){}', 'x=function*yield(){}', '({yield})', '({yield:1})', '({yield}=1)', 'yield=>1', '(yield)=>1', '(a=yield)=>1', 'a.yield', 'class yield{}', 'yi\\u0065ld', 'try{}catch(yield){}', 'yield in a', 'yield?a:b', 'await', 'await a', 'x=await a', '(await a)', 'f(await a)', 'await\na', 'await:1', 'var await', 'function await(){}', 'x=function await(){}', 'x=async function await(){}', '({await})', '({await:1})', '({await}=1)', 'await=>1', '(await)=>1', '(a=await b)=>1', 'async(a=await b)=>1', 'async await=>1', 'async(await)=>1', 'a.await', 'class await{}', 'aw\\u0061it', 'await a**b', 'await()', 'await[a]', 'await/a/g', 'await`a`', 'with(a)b', 'with(a);', '010', '09', '08.5', '"\\01"', '"\\1"', '"\\0"', '"\\08"', '"\\8"', 'delete a', 'delete(a)', 'delete a.b', 'eval=1', 'eval++', '--eval', 'eval+=1', '[eval]=1', '({eval}=1)', '({a:eval}=1)', '({eval=1}=1)', '[...eval]=1', 'var eval', 'let eval', 'function eval(){}', 'function f(eval){}', 'x=function eval(){}', 'eval=>1', '(eval)=>1', '(a,eval)=>1', 'async eval=>1', 'try{}catch(eval){}', 'for(eval in a);', 'for(eval of a);', 'for(var eval of a);', 'class eval{}', '({m(eval){}})', '({set m(eval){}})', 'eval', 'eval()', 'eval.a=1', '(eval)=1', 'arguments=1', 'arguments++', '++arguments', 'var arguments', 'arguments=>1', '(arguments)=>1', 'function arguments(){}', 'function f(...arguments){}', '[arguments]=1', 'for(arguments of a);', 'arguments[0]=1', 'arguments', 'implements', 'var interface', 'package=1', '({private})', '({private}=1)', 'protected:1', 'public=>1', 'function static(){}', 'x={static:1}', 'a.public', 'static', 'let', 'let=1', 'let\na', 'let\n=1', 'var let', 'let:1', 'l\\u0065t=1', '(let)=>1', 'let=>1', 'st\\u0061tic', 'impl\\u0065ments=1', 'if(a)function f(){}', 'if(a);else function f(){}', 'while(a)function f(){}', 'for(;;)function f(){}', 'do function f(){}while(0)', 'L2:function f(){}', 'L2:function*f(){}', 'L2:async function f(){}', 'if(a)L2:function f(){}', 'if(a)async function f(){}', 'if(a)function*f(){}', 'if(a)class A{}', 'if(a)let b', 'if(a)let[b]=c', 'if(a)const b=1', 'while(a)let\nb', 'for(var a=1 in b);', 'for(let a=1 in b);', 'for(var[a]=1 in b);', '1=a', '1++', '++1', 'a()=1', 'a()++', '--a()', 'a+b=1', '(a,b)=1', '(a=b)=1', 'this=1', 'this++', 'new a=1', 'new.target=1', 'new.target', 'new.target++', 'super=1', 'super.a', 'super.a=1', 'super()', 'super[a]', 'super', 'import(a)', 'a=>b=1', '(a=>b)=1', 'a?b:c=1', '(a?b:c)=1', 'a++=1', 'a++ ++', '++a++', '"s"=1', '`t`=1', 'a`t`=1', '/r/=1', 'null=1', 'true++', '-a=1', 'typeof a=1', 'await a=1', 'yield=1', '[a]+=1', '({a}+=1)', '[a]++', '(a)=1', '((a))=1', '(a.b)=1', '([a])=1', '({a})=1', '[(a)]=1', '[([a])]=1', '[(a=1)]=1', 'for(1 in a);', 'for(a()of b);', 'for((a,b)of c);', 'for(this of a);', 'for(a=1 of b);', 'for(new a in b);', '({a:1}=1)', '({a()  {}}=1)', '({get a(){}}=1)', '[1]=1', '[a()]=1', '[a+b]=1', '({a:b+c}=1)', '({...{a}}=1)', '({...[a]}=1)', '[...a,b]=1', '(...a)', '()', '(a,)', '({a=1})', '[{a=1}]', 'f({a=1})', '({a=1}).b', '({a=1}=1)', '({a=1})=>1', 'async({a=1})', 'async({a=1})=>1', 'function f(){yield a}', 'function f(){await a}', 'function f(){"use strict";010}', 'function f(a=1){"use strict"}', 'f=({a})=>{"use strict"}', '(...a)=>{"use strict"}', 'function eval(){"use strict"}', 'function f(eval){"use strict"}', 'function static(){"use strict"}', 'f=eval=>{"use strict"}', '({m(eval){"use strict"}})', '({set m(let){"use strict"}})', 'x=function interface(){"use strict"}', 'function f(){"use strict"}010', 'class A{m(){with(a);}}', 'class A extends(010){}', 'class A{[010](){}}', 'class A{m(eval){}}', 'class A{}010', 'class A extends B{}with(a);', 'class let{}', 'class static{}', 'import a from"m"', 'export{}', 'function f(a,a){}', '(a,a)=>1', 'function*h(){yield}', 'async function h(){await a}', 'function*h(a=yield){}', 'async function h(a=await b){}', 'function*yield(){}', 'async function await(){}', 'async()=>{await a}', 'async()=>await a', '()=>await a', '()=>{yield a}', 'x={*m(){yield a}}', 'x={m(){yield a}}', 'x={async m(){await a}}', 'x={m(){await a}}', 'x={get m(){yield a}}', 'x={*[yield](){}}', 'x={[yield a]:1}', 'x={[await a]:1}', 'class A{[yield a](){}}', 'class A{[await a](){}}', 'class A extends(yield){}', 'class A extends(await a){}', 'x=class extends await{}', '`${yield}`', '`${await a}`', 'for(yield of a);', 'for(await of a);', 'for(var yield of a);', 'for(yield in a);', 'for await(a of b);', 'L:1', 'L:{break L}', 'L:while(1)continue L', 'L:{continue L}', 'L:{while(1)continue L}', 'L:L:1', 'L:{L:1}', 'L:1;L:2', '{L:1}L:2', 'yield:yield:1', 'while(1){break}', 'while(1){continue}', 'switch(a){case 1:break}', 'switch(a){case 1:continue}', 'while(1){switch(a){case 1:continue}}', 'while(1)break\nL', 'L3:while(1)break\nL3', '{break}', 'if(a)break', 'if(a)continue', 'try{return}finally{}', 'if(a)return', '()=>{return}', '()=>{break}', 'while(1)()=>{break}', 'function f(){return}', 'function f(){break}', 'class A{m(){return}}', 'class A{return(){}}', '({return(){}})', '({break:1})', 'enum', 'var enum', 'a.enum', '<!--a', '"use strict"', "'use strict';with(a);", 'async', 'async()', 'async\na=>1', 'async function\nf(){}', 'of', 'get', 'set'];
const MODES = [['s', ''], ['s', '"use strict";'], ['m', '']];
// constructs where a context could leak out of an earlier statement or a parameter
export const EARLIER = ['function*g(){yield}', 'async function f(){await a}', 'function f(){"use strict"}', 'function f(){return}', 'class A{m(){}}', 'class A extends B{constructor(){super()}}', 'x=class{*m(){yield}}', 'x=()=>{"use strict"}', 'x=async()=>await a', 'x=async a=>{await a}', 'x=function*(){yield}', 'x=async function*(){yield await a}', '({*m(){yield},async n(){await a}})', '({get a(){return 1},set a(b){}})', 'while(1){break}', 'for(;;){continue}', 'do{break}while(1)', 'switch(a){case 1:break}', 'L:{break L}', 'L:while(1){continue L}', 'for(a in b)break', 'for(a of b)continue', 'for(var x in a in b);', 'for(;;)break', 'function f(a=async function(){await a}){}', 'function*g(a=function*(){yield}){}', 'try{}catch(e){}', 'if(a)function f(){}', 'x=(a,b)=>{}', 'x=async(a)', 'x=async(a,b)=>c', 'x=(a)', 'x={a=1}={}', '[a]=b', '({a}=b)', '(function(){"use strict"})', '(()=>{"use strict"})', 'new class{m(){}}', '`${function*(){yield}}`', 'label:for(;;)break label', 'x=y=>{while(1)break}', 'x=function(){L:{}}', 'x=async\nfunction f(){}', 'x=async()\ny=>1'];
const TYPES = new Set(['ReturnStatement', 'BreakStatement', 'ContinueStatement', 'YieldExpression', 'AwaitExpression', 'WithStatement', 'LabeledStatement', 'AssignmentExpression', 'UpdateExpression', 'FunctionDeclaration', 'FunctionExpression', 'ArrowFunctionExpression', 'ClassDeclaration', 'ClassExpression', 'ForInStatement', 'ForOfStatement', 'WhileStatement', 'DoWhileStatement', 'SwitchStatement']);
const O = { s: { use: 3, return: 6, break: 6, continue: 6, label: 4, with: 2, func: 4, gen: 4, asyncfn: 4, asyncgen: 3, class: 4, while: 4, for: 3, switch: 4 }, ctxkw: 0.4, e: { arrow: 4, asyncArrow: 3, yield: 5 }, p: { func: 2, gen: 2, asyncfn: 2, asyncgen: 2, class: 2 } };
export default {
  id: 'C17',
  rule: '340 context-dependent fragments in 150 contexts in sloppy, strict and module code (exhaustively), contexts nested up to four deep with a fragment inside and another after it, fragments after 44 constructs that enter and leave contexts, fragments in parameter and key positions, all token sequences over jump, directive, yield and await alphabets, context-rich generated programs and their token mutants; acceptance and whole tree compared with the reference parse. Distinct by source text.',
  assumptions: ['acorn 8.19 as patched in /verif/vendor'],
  relevant: () => true,
  streams: () => [
    ...longs(),
    ...lists('directives parameters branches'),
    cross('fragments in contexts', CTX, FRAG, MODES),
    cross('fragments after constructs', EARLIER.flatMap(e => [e + '\n@', e + ';@', 'function f(){' + e + '\n@}', 'while(1){' + e + '\n@}', 'function*g(){' + e + '\n@}', 'async function g(){' + e + '\n@}', 'L:while(1){' + e + '\n@}']), FRAG.slice(0, 200), [['s', '']]),
    { name: 'fragments in two contexts', enum: true, n: { quick: 150000, thorough: 3000000 }, make: (i, r) => { const a = r.pick(CTX), b = r.pick(CTX), f = r.pick(FRAG); const [goal, p] = r.pick(MODES); return { src: p + a.replace('@', () => b.replace('@', () => f)), goal }; } },
    { name: 'fragments inside and after', n: { quick: 60000, thorough: 800000 }, make: (i, r) => { let s = r.pick(FRAG); for (let d = r.range(1, 3); d > 0; d--) { const c = r.pick(CTX), x = s; s = c.replace('@', () => x); if (r.p(0.4)) s += r.pick([';', '\n']) + r.pick(r.p(0.7) ? FRAG : EARLIER); if (r.p(0.2)) s = r.pick(EARLIER) + '\n' + s; } if (s.length > 1500) return null; const [goal, p] = r.pick(MODES); return { src: p + s, goal }; } },
    cross('expressions in parameter and key positions', ['function f(a=@){}', 'function*f(a=@){}', 'async function f(a=@){}', 'async function*f(a=@){}', 'x=(a=@)=>1', 'x=async(a=@)=>1', 'function*g(){x=(a=@)=>1}', 'async function g(){x=(a=@)=>1}', 'function*g(){function f(a=@){}}', 'async function g(){function f(a=@){}}', 'function*g(){x={[@]:1}}', 'async function g(){x={[@]:1}}', 'function*g(){x={[@](){}}}', 'function*g(){class A{[@](){}}}', 'async function g(){class A{[@](){}}}', 'class A{[@](){}}', 'class A extends(@){}', 'function*g(){class A extends(@){}}', 'class A{m(a=@){}}', 'class A{*m(a=@){}}', 'class A{async m(a=@){}}', '({m(a=@){}})', '({*m(a=@){}})', '({async m(a=@){}})', '({async*m(a=@){}})', '({set m(a=@){}})', 'function*g(){({m(a=@){}})}', 'async function g(){({m(a=@){}})}', 'function f({a=@}){}', 'function*f([a=@]){}', 'async function f({[@]:a}){}', 'async({a=@})=>1', 'async function g(){async(a=@)=>1}', 'async function g(){async(a=@)}', 'function*g(){async(a=@)=>1}', 'function f(a=@){"use strict"}', 'x=(a=@)=>{"use strict"}', 'var{a=@}=b', 'for(var a=@;;);', 'try{}catch({a=@}){}', 'function f(a=()=>@){}', 'async function f(a=()=>@){}', 'function*f(a=()=>@){}', 'function f(a=function(){@}){}', 'async(a=()=>{@})=>1', 'function*g(){({a=@})=>1}', 'function*g(){[a=@]=1}', 'async function g(){({a:b=@}=1)}'], FRAG.filter(f => !/^(if|for|while|do|var|let |const|class|try|with|switch|L|\{|return|break|continue|import|export|"use|'use|enum|function)/.test(f) || /^let$|^class [a-z]*\{/.test(f)), MODES),
    ...seqs('jumps', ['break', 'continue', 'L:', 'M:', 'break L', 'continue L', '{', '}', 'while(1)', 'function f(){', 'switch(a){case 1:', ';', '()=>{'], ['@', 'L:while(1){@}', 'switch(a){case 1:@}', 'L:{@}'], { max: 6, full: 3, tfull: 4, sample: 12000 }),
    ...seqs('yield and await as names', ['yield', 'await', 'a', '=', '=>', '(', ')', ':', ',', '\n', '{', '}', 'async', 'function'], ['@', 'function*g(){@}', 'async function g(){@}', 'async function*g(){@}', '"use strict";@', ['@', 'm']], { max: 5, full: 3, tfull: 4, sample: 15000 }),
    ...seqs('assignment targets', ['a', '1', '(', ')', '=', '++', '.b', '()', '[', ']', '+', '\n', '=>', ','], ['@', 'x=@', 'for(@ of x);'], { max: 6, full: 3, tfull: 5, sample: 15000 }),
    ...seqs('strictness', ["'use strict'", ';', '\n', '010', 'with(a);', 'function f(){', '}', 'class A{m(){', '}}', '"x"', '()=>{', 'eval=1', ',', 'let'], ['@', 'function g(){@}', '{@}'], { max: 5, full: 3, tfull: 4, sample: 15000 }),
    ...seqs('for heads', ['let', 'a', 'of', 'in', '=', ';', 'var', '1', '[a]', '(', ')', '.b', 'yield', 'async'], ['for(@)x', 'for(@ of b)x', 'for(@ in b)x', '"use strict";for(@ of b)x'], { max: 5, full: 3, tfull: 4, sample: 9000 }),
    programs(O, 16000),
    mutants(O, 40000),
  ],
};
