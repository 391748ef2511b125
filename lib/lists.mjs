// Lists of every kind the grammar has: items, well-formed or not, joined by the
// list's separator, in every place where such a list stands. Short lists are
// complete, longer ones sampled.
const sp = s => s.split('¦');
export const LISTS = {
  clauses: { seps: [','], of: 'mm', max: 5, wraps: sp('import @ from"m"¦import @¦export @ from"m"¦export @'), items: sp('a¦{b}¦{}¦*as c¦*¦{d as e,}¦¦{default as f}') },
  specifiers: { seps: [','], of: 'mm', max: 4, wraps: sp('import{@}from"m"¦export{@}from"m"¦export{@}¦import a,{@}from"m"'), items: sp('a¦b¦c as d¦default as e¦default¦if¦¦*as x¦...a¦a as if¦as¦as as¦as as as¦await¦yield as y¦x as await¦"s"¦eval') },
  parameters: { seps: [','], of: 'ssSm', max: 4, wraps: sp('function f(@){}¦(@)=>0¦async(@)=>0¦({m(@){}})¦function*g(@){}¦async function f(@){}¦(@)¦async(@)¦({set a(@){}})¦f(@)¦new A(@)¦class A{constructor(@){}}¦({get a(@){}})¦x=(@)=>{}¦async(@)\n=>0'), items: sp('a¦b¦...c¦{d}¦[e]¦f=1¦{g=1}¦...[h]¦...{i}¦...j=1¦¦(k)¦{l:m}¦yield¦await¦a.b¦...(n)¦1¦eval¦let¦o=>p¦{q(){}}¦[r=1,...s]¦...t=>u') },
  elements: { seps: [','], of: 'sssm', max: 4, wraps: sp('[@]¦[@]=x¦var[@]=x¦([@])=>0¦for([@]of x);¦for(var[@]of x);¦function f([@]){}¦async([@])=>0¦try{}catch([@]){}¦[[@]]=x¦({a:[@]}=x)¦for([@]in x);¦let[@]=x¦[...[@]]=x¦([@])'), items: sp('a¦¦...b¦[c]¦{d}¦e=1¦f.g¦...[h]¦...i=1¦(j)¦1¦...{k}¦l()¦{m=1}¦(n=1)¦(o.p)¦[q]=1¦{r}=1¦...s.t¦...(u)¦([v])¦w=x=y¦eval') },
  members: { seps: [','], of: 'sssm', max: 4, wraps: sp('({@})¦({@}=x)¦var{@}=x¦({@})=>0¦for({@}of x);¦function f({@}){}¦async({@})=>0¦for(let{@}in x);¦({a:{@}}=x)¦[{@}]=x¦try{}catch({@}){}¦x={@}¦({...{@}}=x)'), items: sp('a¦a:b¦c=1¦d:e=1¦[k]:v¦...r¦m(){}¦get f(){}¦set g(v){}¦async h(){}¦*i(){}¦async*j(){}¦"s":t¦1:u¦¦l:{n}¦o:[p]¦q:w.x¦...y.z¦...{aa}¦if¦if:ab¦get¦async¦get:ac¦get=1¦__proto__:ad¦__proto__¦ae:(af)¦ag:(ah.ai)¦...(aj)¦eval¦"al"¦2¦[am]¦an:1¦...[ao]') },
  declarators: { seps: [','], of: 'ssSm', max: 4, wraps: sp('var @;¦let @;¦const @;¦for(var @;;);¦for(let @;;);¦for(const @;;);¦for(var @ in x);¦for(let @ of x);¦for(const @ in x);¦for(var @ of x);¦export var @;¦export let @¦if(x)var @;¦let\n@'), items: sp('a¦b=1¦{c}=x¦[d]=x¦{e}¦[f]¦¦g in h¦let¦i=j in k¦l=function(){}¦m=()=>{}¦n=(o in p)¦q=r?s:t¦u=v,¦w=x=y¦(z)¦a.b¦async¦of¦yield') },
  'class members': { seps: ['', ';', ' ', '\n', ','], of: 'ssm', max: 4, wraps: sp('class A{@}¦(class{@})¦class A extends B{@}¦x=class extends(B,C){@}'), items: sp('m(){}¦get a(){}¦set a(v){}¦static m(){}¦constructor(){}¦*g(){}¦async m(){}¦[k](){}¦¦;¦static constructor(){}¦get constructor(){}¦static prototype(){}¦"constructor"(){}¦static static(){}¦get(){}¦async(){}¦static get a(){}¦a¦a=1¦static¦get¦async*m(){}¦set(){}¦static async *x(){}¦get[b](){}¦constructor(){super()}¦m(){super.x}¦static(){}¦async get(){}¦1(){}¦"s"(){}¦*constructor(){}¦["constructor"](){}¦\\u0063onstructor(){}¦static get prototype(){}¦async\nn(){}') },
  cases: { seps: ['', '\n', ' '], of: 'ssm', max: 5, wraps: sp('switch(x){@}¦for(;;)switch(x){@}¦function f(){switch(x){@}}'), items: sp('case a:¦case b:c;¦default:¦default:d;break;¦case e:{}¦case f:break¦case g,h:¦¦case:¦default a:¦i;¦case j:continue¦case k:let l;¦default:function f(){}¦case m?n:o:¦case(p):return') },
  handlers: { seps: ['', '\n'], of: 'sSm', max: 4, wraps: sp('try{}@¦try{a}@\nb¦try @'), items: sp('catch{}¦catch(e){}¦finally{}¦catch({a}){}¦catch(e,f){}¦catch(e=1){}¦catch(){}¦else{}¦finally(e){}¦;¦{}¦catch¦a¦catch(eval){}¦catch([a=1]){}¦catch e{}¦finally;¦catch(...a){}¦catch((a)){}¦catch({a:1}){}') },
  branches: { seps: [' ', '\n'], of: 'sSm', max: 5, wraps: sp('@¦function x(){@}¦{@}'), items: sp('if(a)¦else¦b;¦c¦{}¦;¦while(d)¦do¦function f(){}¦L:¦if(e)g¦return¦throw h¦else if(i)¦for(;;)¦with(j)¦let k¦class A{}¦var l¦async function m(){}¦break¦continue¦while(n);¦try{}finally{}') },
  tails: { seps: [''], of: 'ssm', max: 4, wraps: sp('a@¦new a@¦({m(){super@}})¦this@¦(a)@¦async@¦function f(){new.target@}¦(function(){})@¦(class{})@¦{}@¦[]@¦`t`@¦"s"@¦/r/@¦1@¦1.@¦function*g(){yield@}¦async function h(){await@}¦async(a)@¦new new a@¦null@¦({})@¦let@¦class A extends B{constructor(){super@}}¦a=b@¦a++@¦-a@¦()=>{}@¦()=>a@¦async x=>{}@¦function f(){}@¦x=function(){}@¦new(a)@¦yield@¦await@¦of@¦import@¦x=class{}@'), items: sp('.b¦[c]¦(d)¦`e`¦++¦=f¦=>g¦+h¦.if¦ in i¦,j¦;k¦\n¦(...l)¦[]¦()¦.¦`${m}`¦--¦?n:o¦+=p¦**q¦.1¦(r,)¦=¦{}¦ instanceof s¦/t/u¦\n(v)¦\n++w¦\n[x]¦\n`y`¦\n=>z¦=>{}¦*¦[a,b]¦:¦()=>c') },
  directives: { seps: ['', ' ', '\n'], of: 'ssm', max: 4, wraps: sp('@¦function f(){@}¦()=>{@}¦({m(){@}})¦function f(a=1){@}¦function f({a}){@}¦(class{m(){@}})¦function f(a,a){@}¦function eval(){@}¦(eval)=>{@}¦x=>{@}¦async(x)=>{@}¦function f(...a){@}¦({set a(v=1){@}})¦function*g(){@}¦{@}¦if(x){@}¦yield=>{@}¦function f(){"a";@}¦async x=>{@}¦({get a(){@}})¦let=>{@}'), items: sp('"use strict";¦\'use strict\'\n¦"a";¦("use strict");¦"use\\x20strict";¦with(a);¦010;¦"\\1";¦var let;¦a;¦"use strict"+b;¦"use strict".c;¦"use strict"\n¦;¦function g(){"use strict"}¦"use strict",d;¦"\\7"\n¦"use strict" in e;¦`use strict`;¦{}¦"use strict"\n(f);¦eval=1;¦delete a;¦"use strict"\n++h;¦09;¦implements:i;¦"Use Strict";¦yield;¦function static(){}') },
};
const MODES = { s: ['s', ''], S: ['s', '"use strict";'], m: ['m', ''] };
export const lists = (names, { quick = 9000, thorough = 400000, extra = {} } = {}) => names.split(' ').map(x => x.replace('_', ' ')).flatMap(name => {
  const { seps, of, max, wraps, items } = LISTS[name], out = [];
  for (let L = 1; L <= max; L++) {
    const N = items.length ** L * wraps.length;
    const take = t => Math.min(N, t === 'quick' ? L === 1 ? 4000 : quick : thorough);
    out.push({
      name: `lists: ${name} of ${L}`, enum: true, n: { quick: take('quick'), thorough: take('thorough') }, ...extra,
      make: (i, r, ctx) => {
        let k = take(ctx.quick ? 'quick' : 'thorough') < N ? Math.floor(r.f() * N) : i;
        const w = wraps[k % wraps.length]; k = Math.floor(k / wraps.length);
        const sep = r.p(0.75) ? seps[0] : r.pick(seps), l = [];
        for (let j = 0; j < L; j++) { l.push(items[k % items.length]); k = Math.floor(k / items.length); }
        const [goal, pre] = MODES[of[r.int(of.length)]];
        return { src: pre + w.replaceAll('@', () => l.join(sep)), goal };
      },
    });
  }
  return out;
});
export const ALL_LISTS = Object.keys(LISTS).map(x => x.replace(' ', '_')).join(' ');
