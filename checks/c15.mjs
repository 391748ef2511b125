// C15 module imports and exports.
import { programs, mutants, seqs, cross, nested, about, program } from '../lib/work.mjs';
import { plain, decorate } from '../lib/print.mjs';
import { judgeTree, diffTree, CRASH, outOfScope, hasLone, maySurrogate } from '../lib/oracle.mjs';
import { refParse } from '../lib/ref.mjs';
import { STMTS, SCTX } from './c12.mjs';
import { longs } from '../lib/long.mjs';
import { lists } from '../lib/lists.mjs';
const NAMES = ['a', 'as', 'from', 'default', 'of', 'async', 'await', 'yield', 'let', 'static', 'get', 'if', 'null', 'eval', 'arguments', 'enum', 'implements', 'this', 'é', '\\u0061', 'd\\u0065fault', 'import', 'export', 'target', '"s"', '*', '1', ''];
const DECL = ['var a', 'var a;', 'var a=1,{b}=c', 'let a', 'let a=1', 'let[a]=b', 'const a=1', 'const{a}=b', 'const a', 'function a(){}', 'function*a(){}', 'async function a(){}', 'async function*a(){}', 'class a{}', 'class a extends b{}', 'function(){}', 'function*(){}', 'async function(){}', 'async function*(){}', 'class{}', 'class extends a{}', 'a', 'a;', 'a,b', 'a=b', '(a)', '(a,b)', 'a=>b', '()=>{}', 'async a=>b', 'async()=>{}', 'async', 'async\nfunction a(){}', '{}', '{a}', '{a,b}', '{a,}', '{,}', '{a as b}', '{a as default}', '{a as if}', '{default}', '{if}', '{if as a}', '{default as a}', '{a b}', '{a as}', '{as}', '{as as as}', '{a:b}', '{a.b}', '{"a"}', '{a as "b"}', '{}from"m"', '{a}from"m"', '{a as b,c}from"m"', '{default}from"m"', '{if as else}from"m"', '{default as default}from"m"', '{as as as}from"m"', '{a}from m', '{a}from', '{a}\nfrom"m"', '{a}\nfrom\n"m"', '*from"m"', '*', '*from', '* as a from"m"', '*,a from"m"', '*\nfrom\n"m";a', 'default a', 'default', 'default a,b', 'default(a,b)', 'default{}', 'default{a:1}', 'default[]', 'default function(){}', 'default function a(){}', 'default function(){}()', 'default(function(){})()', 'default function*(){}', 'default function*a(){}', 'default async function(){}', 'default async function a(){}', 'default async function*(){}', 'default async\nfunction a(){}', 'default async', 'default async a=>b', 'default async()=>b', 'default async(a)', 'default class{}', 'default class a{}', 'default class extends a{}', 'default class{}\n/a/g', 'default()=>{}', 'default a=>b', 'default a=b', 'default var a', 'default let a', 'default const a=1', 'default let', 'default 1;default 2', 'default a\nb', 'default a b', 'default function(){}a', 'default class{}a', 'default function(){}/a/g', 'default yield', 'default await', 'default a in b', 'default"s"', 'default`t`', 'default/r/', 'default this', 'default new a', 'default default', 'import a from"m"', 'export a', 'if(a)b', '', ';', 'enum a{}', 'a from"m"', 'from"m"', '"m"', 'var', 'let', 'const', 'class', 'function', 'type a', '{a}from"m"\nb', '{a}from"m"b', '{a}b', '{a}\nb', 'var a b', 'async function', 'async class{}', 'let async', 'var await', 'var yield', 'function await(){}', 'function yield(){}', 'class await{}', 'class let{}'];
const IMP = ['"m"', "'m';", '"m"\na', '"m"a', 'a from"m"', 'a from"m";', 'a from m', 'a"m"', 'a from', 'a', '* as a from"m"', '*as a from"m"', '* as a', '*from"m"', '* a from"m"', '* as a,b from"m"', '* as default from"m"', '* as if from"m"', '{}from"m"', '{a}from"m"', '{a,b}from"m"', '{a,}from"m"', '{,}from"m"', '{a,,b}from"m"', '{a as b}from"m"', '{a as b,c as d,}from"m"', '{default as a}from"m"', '{default}from"m"', '{if as a}from"m"', '{if}from"m"', '{a as if}from"m"', '{as}from"m"', '{as as as}from"m"', '{as as}from"m"', '{a as as}from"m"', '{from}from"m"', '{from as from}from"m"', '{a as}from"m"', '{a as b c}from"m"', '{a b}from"m"', '{"a" as b}from"m"', '{*}from"m"', '{* as a}from"m"', '{...a}from"m"', '{a=1}from"m"', '{a:b}from"m"', '{await}from"m"', '{await as a}from"m"', '{yield}from"m"', '{yield as a}from"m"', '{let}from"m"', '{eval}from"m"', '{eval as a}from"m"', '{a as eval}from"m"', '{arguments}from"m"', '{async}from"m"', '{get,set,of,static as s}from"m"', '{\\u0061}from"m"', '{\\u0069f as a}from"m"', '{\\u0069f}from"m"', '{a \\u0061s b}from"m"', 'a \\u0066rom"m"', 'a,{b}from"m"', 'a,{}from"m"', 'a,{b as c,d}from"m"', 'a,* as b from"m"', 'a,b from"m"', 'a,*from"m"', 'a,from"m"', 'a,', 'a,{b},c from"m"', 'a,{b},* as c from"m"', 'from from"m"', 'as from"m"', 'as,{as}from"m"', 'from,{from}from"m"', 'from,* as from from"m"', 'default from"m"', 'if from"m"', 'await from"m"', 'yield from"m"', 'let from"m"', 'eval from"m"', 'async from"m"', 'of from"m"', 'static from"m"', 'get from"m"', 'enum from"m"', '\na\nfrom\n"m"', '\n"m"', '\n{\na\nas\nb\n}\nfrom\n"m"', '\n*\nas\na\nfrom\n"m"', 'a from"m"b', 'a from"m"\nb', 'a from`m`', 'a from("m")', 'a from 1', '("m")', '("m").then(a)', '.meta', '(a,b)', '()', '', ';', 'var a', 'a=b', 'a.b', '{a}', '"m";import"n"', 'a from"m"import b from"n"', '{a}from"m"\nimport"n"', 'a from "m" as b', '{a}from"m"with{}', 'type{a}from"m"', 'a from"\\u006d"', "a from'm\\\nn'", 'a from""', '* as async from"m"', '* as await from"m"', '{a as await}from"m"', '{a as async}from"m"', '{a as static}from"m"'];
const PLACE = ['@', '{@}', 'if(a)@', 'if(a);else @', 'function f(){@}', '()=>{@}', 'for(;;)@', 'while(a)@', 'do @;while(a)', 'switch(a){case b:@}', 'try{@}catch{}', 'try{}finally{@}', 'a:@', 'class A{m(){@}}', 'class A{@}', '({m(){@}})', 'x=@', '(@)', '@;a', '@\na', 'a;@', 'a\n@', '"use strict";@', '@;@', '@\n@', 'async function f(){@}', 'function*g(){@}', '[@]', 'f(@)', 'export @', 'import @', 'with(a)@', '{}@', ';@', '@ @', 'a @'];
const ITEMS = [...IMP.map(x => 'import ' + x), ...IMP.filter(x => /^["'{*\n]/.test(x)).map(x => 'import' + x), ...DECL.map(x => 'export ' + x), ...DECL.filter(x => /^[{*]/.test(x)).map(x => 'export' + x)];
const TYPES = new Set(['ImportDeclaration', 'ImportSpecifier', 'ImportDefaultSpecifier', 'ImportNamespaceSpecifier', 'ExportNamedDeclaration', 'ExportSpecifier', 'ExportDefaultDeclaration', 'ExportAllDeclaration']);
// The same body under both goals: when both accept it, the statements agree.
const bothGoals = (name, n, make) => ({
  name, n, min: false,
  make: (i, r, ctx) => { const s = make(i, r); return s && { src: s, goal: 'm', twin: true }; },
});
const OPT = { module: true, modItem: 0.8, size: 18 };
export default {
  id: 'C15',
  rule: '245 import and export items (well-formed and broken) in 36 places under both goals (exhaustively), 28 names in every specifier position (pairs), all token sequences of up to 4 symbols (5 thorough) after import and export, module programs and token mutants, compared with the reference parse; and generated script and module bodies parsed under both goals, which must give the same statements when both accept and must not accept as a module what is invalid strict code. Distinct by source text.',
  assumptions: ['acorn 8.19 as patched in /verif/vendor'],
  relevant: v => !/^(programs|mutants|corpus)/.test(v.stream) || about(TYPES, /\b(im|ex)port\b/)(v),
  streams: () => [
    ...longs(),
    ...lists('clauses specifiers declarators'),
    cross('items in places', PLACE, ITEMS, [['s', ''], ['m', '']]),
    ...[['import{@ as #}from"m"'], ['import{@,#}from"m"'], ['import @,{#}from"m"'], ['import @,*as # from"m"'], ['import{# as @,b}from"m"'], ['export{@ as #}from"m"'], ['export{@,#}from"m"'], ['export{@ as #}'], ['export{@,# as z}'], ['var @;export{@ as #}'], ['export * from"m";import @ from"#"'], ['export @ #'], ['import @ #'], ['import @ from #'], ['export default @ #']].map(([t]) => ({ name: 'names in ' + t, n: NAMES.length ** 2, make: i => ({ src: t.replaceAll('@', NAMES[i % NAMES.length]).replaceAll('#', NAMES[Math.floor(i / NAMES.length)]), goal: 'm' }) })),
    ...seqs('after import', ['{', '}', 'a', 'as', 'from', '"m"', 'default', '*', ',', ';', '(', ')', '.', '\n', 'b'], [['import @', 'm'], ['import{@}from"m"', 'm'], ['import @ from"m"', 'm']], { max: 7, full: 3, tfull: 4, sample: 12000 }),
    ...seqs('after export', ['{', '}', 'a', 'as', 'from', '"m"', 'default', '*', ',', ';', 'function', '(){}', 'class', 'var', 'async', '\n', '=1'], [['export @', 'm'], ['export{@}', 'm'], ['export{@}from"m"', 'm'], ['export default @', 'm']], { max: 6, full: 3, tfull: 4, sample: 15000 }),
    { name: 'several items', n: { quick: 40000, thorough: 500000 }, make: (i, r) => { let s = ''; for (let n = r.range(2, 5); n > 0; n--) s += r.pick(r.p(0.75) ? ITEMS : STMTS) + r.pick([';', '\n', '', ' ']); return { src: s, goal: r.p(0.9) ? 'm' : 's' }; } },
    nested('nested places', PLACE, ITEMS, 20000, 200000, [2, 3], [['s', ''], ['m', '']]),
    // module code is strict
    cross('strict-only errors in modules', SCTX, ['with(a)b', '010', '09', '"\\1"', 'eval=1', 'arguments++', 'var let', 'let static', 'implements', 'interface', 'yield', 'await', 'var public', 'function f(a,eval){}', 'delete a', 'if(a)function b(){}', 'a:function b(){}', 'for(var a=1 in b);', '({eval}=1)', '(eval)=>1', 'class let{}', 'package:1', 'private', 'x={static}', 'protected=1', 'a=>{with(b);}', 'function f(){010}', 'x=await', 'function await(){}', 'var{await}=1', '({await}=1)', 'await:1', 'x={await:1}', 'x.await', 'async function f(){await 1}', 'function f(await){}', 'class await{}', 'x=>await', '"\\8"', '`\\1`', 'x`\\1`'], [['s', ''], ['s', '"use strict";'], ['m', '']]),
    programs({ module: true, modItem: 0.8, ctxkw: 0.2 }, 16000),
    mutants({ module: true, modItem: 0.9, ctxkw: 0.2 }, 30000),
    bothGoals('both goals: programs', { quick: 20000, thorough: 250000 }, (i, r) => { const { toks } = program(r, { module: r.p(0.3), modItem: 0.1, size: 20, ctxkw: 0.3 }); return r.p(0.5) ? plain(toks) : decorate(toks, r, { density: 0.2, asi: 0.4 }); }),
    bothGoals('both goals: statements', { quick: 20000, thorough: 200000 }, (i, r) => { let s = ''; for (let n = r.range(1, 3); n > 0; n--) s += r.pick(r.p(0.5) ? SCTX : ['@']).replaceAll('@', () => r.pick(STMTS)) + r.pick([';', '\n', '']); return s; }),
  ].map(s => !s.name.startsWith('both goals') ? s : {
    ...s, judgePair: true,
    make: (i, r, ctx) => { const c = s.make(i, r, ctx); return c && [{ ...c, goal: 'm' }, { ...c, goal: 's' }]; },
    judge: (c, rec, ctx) => {
      if (c.goal === 'm') { ctx.held = { src: c.src, rec }; return null; }
      const m = ctx.held.rec, src = c.src;
      if (ctx.held.src !== src) throw new Error('pairs out of step');
      if (CRASH.has(m.k) || CRASH.has(rec.k) || outOfScope(src)) return null;
      if (m.k === 'ok' && rec.k === 'ok') {
        ctx.bump('same statements under both goals');
        const d = diffTree(strip(rec.ast), strip(m.ast));
        return d ? { kind: 'goals differ', detail: `${d.path}: script and module trees differ: ${d.text}` } : null;
      }
      ctx.bump(m.k === 'ok' ? 'accepted as module only' : rec.k === 'ok' ? 'accepted as script only' : 'rejected by both');
      // what only one goal accepts is decided by the reference
      const g = m.k === 'ok' ? 'm' : 's';
      return judgeTree(src, g, g === 'm' ? m : rec) || judgeTree(src, g === 'm' ? 's' : 'm', g === 'm' ? rec : m);
    },
  }),
};
const strip = ast => ({ ...ast, sourceType: undefined });
