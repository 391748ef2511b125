// The shape of an ESTree 2019 document, written down from the ESTree
// specification (es5.md to es2019.md), independent of any parser.
const EXPR = new Set('Identifier Literal ThisExpression ArrayExpression ObjectExpression FunctionExpression UnaryExpression UpdateExpression BinaryExpression AssignmentExpression LogicalExpression MemberExpression ConditionalExpression CallExpression NewExpression SequenceExpression ArrowFunctionExpression YieldExpression AwaitExpression TemplateLiteral TaggedTemplateExpression ClassExpression MetaProperty'.split(' '));
const DECL = ['FunctionDeclaration', 'VariableDeclaration', 'ClassDeclaration'];
const STMT = new Set('ExpressionStatement BlockStatement EmptyStatement DebuggerStatement WithStatement ReturnStatement LabeledStatement BreakStatement ContinueStatement IfStatement SwitchStatement ThrowStatement TryStatement WhileStatement DoWhileStatement ForStatement ForInStatement ForOfStatement FunctionDeclaration VariableDeclaration ClassDeclaration'.split(' '));
const MODI = new Set('ImportDeclaration ExportNamedDeclaration ExportDefaultDeclaration ExportAllDeclaration'.split(' '));
const only = (...t) => new Set(t);
const plus = (s, ...t) => new Set([...s, ...t]);
const BIND = only('Identifier', 'ObjectPattern', 'ArrayPattern');
const TARGET = plus(BIND, 'MemberExpression');
const UNOP = new Set('- + ! ~ typeof void delete'.split(' '));
const BINOP = new Set('== != === !== < <= > >= << >> >>> + - * / % | ^ & in instanceof **'.split(' '));
const ASOP = new Set('= += -= *= /= %= <<= >>= >>>= |= ^= &= **='.split(' '));
// field kinds
const N = set => ({ k: 'node', set });                  // a node of these types
const O = set => ({ k: 'node', set, opt: true });       // or null
const L = (set, holes) => ({ k: 'list', set, holes });
const B = { k: 'bool' }, S = { k: 'string' };
const V = (...v) => ({ k: 'one', v: new Set(v) });
const FN = { params: { k: 'params' }, generator: B, async: B, expression: B };
const E = N(EXPR);
export const SHAPE = {
  Program: { sourceType: V('script', 'module'), body: L(new Set([...STMT, ...MODI])) },
  Identifier: { name: S }, Literal: { value: { k: 'value' }, raw: S },
  ExpressionStatement: { expression: E }, BlockStatement: { body: L(STMT) }, EmptyStatement: {}, DebuggerStatement: {},
  WithStatement: { object: E, body: N(STMT) }, ReturnStatement: { argument: O(EXPR) },
  LabeledStatement: { label: N(only('Identifier')), body: N(STMT) }, BreakStatement: { label: O(only('Identifier')) }, ContinueStatement: { label: O(only('Identifier')) },
  IfStatement: { test: E, consequent: N(STMT), alternate: O(STMT) }, SwitchStatement: { discriminant: E, cases: L(only('SwitchCase')) }, SwitchCase: { test: O(EXPR), consequent: L(STMT) },
  ThrowStatement: { argument: E }, TryStatement: { block: N(only('BlockStatement')), handler: O(only('CatchClause')), finalizer: O(only('BlockStatement')) }, CatchClause: { param: O(BIND), body: N(only('BlockStatement')) },
  WhileStatement: { test: E, body: N(STMT) }, DoWhileStatement: { body: N(STMT), test: E },
  ForStatement: { init: O(plus(EXPR, 'VariableDeclaration')), test: O(EXPR), update: O(EXPR), body: N(STMT) },
  ForInStatement: { left: N(plus(TARGET, 'VariableDeclaration')), right: E, body: N(STMT) },
  ForOfStatement: { left: N(plus(TARGET, 'VariableDeclaration')), right: E, body: N(STMT), await: B },
  FunctionDeclaration: { ...FN, id: N(only('Identifier')), body: N(only('BlockStatement')) }, FunctionExpression: { ...FN, id: O(only('Identifier')), body: N(only('BlockStatement')) },
  ArrowFunctionExpression: { ...FN, id: V(null), body: N(plus(EXPR, 'BlockStatement')) },
  VariableDeclaration: { declarations: L(only('VariableDeclarator')), kind: V('var', 'let', 'const') }, VariableDeclarator: { id: N(BIND), init: O(EXPR) },
  ThisExpression: {}, Super: {}, ArrayExpression: { elements: L(plus(EXPR, 'SpreadElement'), true) }, ObjectExpression: { properties: L(only('Property', 'SpreadElement')) },
  Property: { key: E, computed: B, value: N(plus(EXPR, 'ObjectPattern', 'ArrayPattern', 'AssignmentPattern')), kind: V('init', 'get', 'set'), method: B, shorthand: B },
  UnaryExpression: { operator: { k: 'one', v: UNOP }, prefix: V(true), argument: E }, UpdateExpression: { operator: V('++', '--'), argument: N(only('Identifier', 'MemberExpression')), prefix: B },
  BinaryExpression: { operator: { k: 'one', v: BINOP }, left: E, right: E }, LogicalExpression: { operator: V('||', '&&'), left: E, right: E },
  AssignmentExpression: { operator: { k: 'one', v: ASOP }, left: N(TARGET), right: E },
  MemberExpression: { object: N(plus(EXPR, 'Super')), property: E, computed: B }, ConditionalExpression: { test: E, consequent: E, alternate: E },
  CallExpression: { callee: N(plus(EXPR, 'Super')), arguments: L(plus(EXPR, 'SpreadElement')) }, NewExpression: { callee: E, arguments: L(plus(EXPR, 'SpreadElement')) },
  SequenceExpression: { expressions: L(EXPR) }, SpreadElement: { argument: E }, YieldExpression: { argument: O(EXPR), delegate: B }, AwaitExpression: { argument: E },
  TemplateLiteral: { quasis: L(only('TemplateElement')), expressions: L(EXPR) }, TaggedTemplateExpression: { tag: E, quasi: N(only('TemplateLiteral')) }, TemplateElement: { tail: B, value: { k: 'cooked' } },
  AssignmentPattern: { left: N(TARGET), right: E }, ObjectPattern: { properties: L(only('Property', 'RestElement')) }, ArrayPattern: { elements: L(plus(TARGET, 'AssignmentPattern', 'RestElement'), true) }, RestElement: { argument: N(TARGET) },
  ClassDeclaration: { id: N(only('Identifier')), superClass: O(EXPR), body: N(only('ClassBody')) }, ClassExpression: { id: O(only('Identifier')), superClass: O(EXPR), body: N(only('ClassBody')) }, ClassBody: { body: L(only('MethodDefinition')) },
  MethodDefinition: { key: E, value: N(only('FunctionExpression')), kind: V('constructor', 'method', 'get', 'set'), computed: B, static: B },
  MetaProperty: { meta: N(only('Identifier')), property: N(only('Identifier')) },
  ImportDeclaration: { specifiers: L(only('ImportSpecifier', 'ImportDefaultSpecifier', 'ImportNamespaceSpecifier')), source: N(only('Literal')) },
  ImportSpecifier: { imported: N(only('Identifier')), local: N(only('Identifier')) }, ImportDefaultSpecifier: { local: N(only('Identifier')) }, ImportNamespaceSpecifier: { local: N(only('Identifier')) },
  ExportNamedDeclaration: { declaration: O(new Set(DECL)), specifiers: L(only('ExportSpecifier')), source: O(only('Literal')) }, ExportSpecifier: { exported: N(only('Identifier')), local: N(only('Identifier')) },
  ExportDefaultDeclaration: { declaration: N(plus(EXPR, 'FunctionDeclaration', 'ClassDeclaration')) }, ExportAllDeclaration: { source: N(only('Literal')) },
};
const COUNT = Object.fromEntries(Object.entries(SHAPE).map(([t, f]) => [t, Object.keys(f).length]));
const show = x => { const s = JSON.stringify(x); return s === undefined ? 'nothing' : s.length > 100 ? s.slice(0, 100) + '…' : s; };
class Bad extends Error {}
// Throws what is wrong with the document; counts node types into `seen`.
export function checkDocument(doc, goal, seen = {}) {
  const bad = (p, type, msg) => { const e = new Bad(`${p || 'document'}: ${msg}`); e.type = type; throw e; };
  // `bind`: inside the pattern of a declaration or parameter, where members may not occur
  function node(x, set, p, bind, anon) {
    if (x === null || typeof x !== 'object' || Array.isArray(x)) bad(p, '', `a node expected, got ${show(x)}`);
    const t = x.type, shape = Object.hasOwn(SHAPE, t) ? SHAPE[t] : null;
    if (!shape) bad(p, String(t), `${show(t)} is no ESTree node type`);
    if (!set.has(t)) bad(p, t, `a ${t} cannot stand here`);
    if (bind && t === 'MemberExpression') bad(p, t, 'a member expression cannot be bound');
    seen[t] = (seen[t] || 0) + 1;
    let extra = 0;
    const pat = t === 'ObjectPattern' || t === 'ArrayPattern' || t === 'RestElement' || t === 'AssignmentPattern';
    for (const k in shape) {
      const f = shape[k], q = p + '.' + k;
      if (!Object.hasOwn(x, k)) bad(q, t, `${t} lacks the field ${k}`);
      const v = x[k];
      switch (f.k) {
        case 'node': {
          if (v === null && (f.opt || anon && k === 'id')) break;
          if (t === 'Property') { if (k === 'key') node(v, f.set, q, false); break; } // its value depends on the parent
          node(v, f.set, q, pat && k !== 'right' ? bind : t === 'VariableDeclarator' && k === 'id' || t === 'CatchClause' && k === 'param', t === 'ExportDefaultDeclaration');
          break;
        }
        case 'list': case 'params': {
          if (!Array.isArray(v)) bad(q, t, `a list expected, got ${show(v)}`);
          for (let i = 0; i < v.length; i++) {
            const y = v[i], r = `${q}[${i}]`;
            if (y === null && f.holes) continue;
            if (f.k === 'params') node(y, PARAM, r, true); else node(y, f.set, r, pat ? bind : false);
            if (y.type === 'RestElement' && i !== v.length - 1) bad(r, t, 'a rest element that is not last');
            if (y.type === 'Property') {
              const inPat = t === 'ObjectPattern';
              node(y.value, inPat ? ELEMENT : EXPR_OR_COVER, r + '.value', inPat && bind);
              if (inPat && (y.kind !== 'init' || y.method)) bad(r, t, 'an accessor or method in a pattern');
            }
          }
          break;
        }
        case 'bool': if (typeof v !== 'boolean') bad(q, t, `a boolean expected, got ${show(v)}`); break;
        case 'string': if (typeof v !== 'string') bad(q, t, `a string expected, got ${show(v)}`); break;
        case 'one': if (!f.v.has(v)) bad(q, t, `${show(v)} is no ${k} of a ${t}`); break;
        case 'value': literal(x, p); break;
        case 'cooked': if (v === null || typeof v !== 'object' || Object.keys(v).sort().join() !== 'cooked,raw' || typeof v.raw !== 'string' || !(v.cooked === null || typeof v.cooked === 'string')) bad(q, t, `{cooked, raw} expected, got ${show(v)}`); break;
      }
    }
    for (const k in x) if (k !== 'type' && !Object.hasOwn(shape, k)) {
      if (t === 'Literal' && k === 'regex' && x.raw[0] === '/') { extra++; continue; }
      if (t === 'ExpressionStatement' && k === 'directive' && typeof x.directive === 'string') { extra++; continue; }
      bad(p + '.' + k, t, `${t} has no field ${k}`);
    }
    if (Object.keys(x).length !== COUNT[t] + 1 + extra) bad(p, t, 'fields differ');
    const rule = RULES[t]; if (rule) { const m = rule(x, bad); if (m) bad(p, t, m); }
  }
  function literal(x, p) {
    const { value, raw } = x;
    if (typeof raw !== 'string' || raw === '') bad(p, 'Literal', `raw is ${show(raw)}`);
    const c = raw[0];
    const want = c === '"' || c === "'" ? 'string' : /[0-9.]/.test(c) ? 'number' : raw === 'true' || raw === 'false' ? 'boolean' : raw === 'null' || c === '/' ? 'null' : null;
    if (!want) bad(p, 'Literal', `raw ${show(raw)} is no literal`);
    const have = value === null ? 'null' : typeof value;
    if (have !== want && !(want === 'number' && value === null && Number(raw) === Infinity)) bad(p, 'Literal', `value ${show(value)} of ${show(raw)}`);
    if (want === 'boolean' && String(value) !== raw) bad(p, 'Literal', `value ${show(value)} of ${raw}`);
    if (want === 'string' && raw[raw.length - 1] !== c) bad(p, 'Literal', `raw ${show(raw)} is no string`);
    if (c === '/') {
      const g = x.regex;
      if (g === undefined || g === null || typeof g !== 'object' || Object.keys(g).sort().join() !== 'flags,pattern' || typeof g.pattern !== 'string' || typeof g.flags !== 'string') bad(p, 'Literal', `regex is ${show(g)}`);
      if (raw !== `/${g.pattern}/${g.flags}`) bad(p, 'Literal', `regex ${show(g)} of ${raw}`);
    }
  }
  node(doc, only('Program'), '', false);
  if (doc.sourceType !== (goal === 'm' ? 'module' : 'script')) bad('.sourceType', 'Program', `${show(doc.sourceType)} of a ${goal === 'm' ? 'module' : 'script'}`);
  if (goal !== 'm') for (const [i, s] of doc.body.entries()) if (MODI.has(s.type)) bad(`.body[${i}]`, s.type, `${s.type} in a script`);
}
const PARAM = plus(BIND, 'AssignmentPattern', 'RestElement');
const ELEMENT = plus(TARGET, 'AssignmentPattern');
const EXPR_OR_COVER = EXPR;
const isKey = (x, k) => x.computed || x[k].type === 'Identifier' || x[k].type === 'Literal' && (typeof x[k].value === 'string' || typeof x[k].value === 'number' || /^[0-9.]/.test(x[k].raw));
const prologue = body => {
  let on = true;
  for (const s of body) {
    if (typeof s.directive !== 'string') { on = false; continue; }
    if (!on) return 'a directive after the prologue';
    if (s.expression.type !== 'Literal' || s.directive !== s.expression.raw.slice(1, -1)) return `directive ${show(s.directive)} of ${show(s.expression.raw)}`;
  }
  return null;
};
const noDirective = body => body.some(s => 'directive' in s) ? 'a directive outside a prologue' : null;
const accessor = (kind, f) => kind === 'get' && f.params.length ? 'a getter with parameters' : kind === 'set' && (f.params.length !== 1 || f.params[0].type === 'RestElement') ? 'a setter without its one parameter' : (kind === 'get' || kind === 'set') && (f.generator || f.async) ? 'a generator or async accessor' : null;
const fn = f => f.expression ? 'a function with an expression body' : prologue(f.body.body);
const RULES = {
  Program: x => prologue(x.body), FunctionDeclaration: fn, FunctionExpression: fn,
  ArrowFunctionExpression: x => x.generator ? 'an arrow function that is a generator' : x.expression !== (x.body.type !== 'BlockStatement') ? 'expression does not tell what the body is' : x.expression ? null : prologue(x.body.body),
  IfStatement: x => noDirective([x.consequent, x.alternate || {}]), SwitchCase: x => noDirective(x.consequent), LabeledStatement: x => noDirective([x.body]),
  SwitchStatement: x => x.cases.filter(c => c.test === null).length > 1 ? 'two default clauses' : null,
  TryStatement: x => !x.handler && !x.finalizer ? 'neither handler nor finalizer' : null,
  VariableDeclaration: x => !x.declarations.length ? 'no declarators' : null,
  ForInStatement: x => forLeft(x), ForOfStatement: x => forLeft(x),
  ForStatement: x => x.init && x.init.type === 'VariableDeclaration' ? x.init.declarations.some(d => !d.init && (x.init.kind === 'const' || d.id.type !== 'Identifier')) ? 'a pattern or constant without initializer' : null : null,
  SequenceExpression: x => x.expressions.length < 2 ? 'a sequence of less than two' : null,
  MemberExpression: x => !x.computed && x.property.type !== 'Identifier' ? 'a name expected after the dot' : null,
  AssignmentExpression: x => x.operator !== '=' && /Pattern/.test(x.left.type) ? 'a pattern left of ' + x.operator : null,
  TemplateLiteral: x => x.quasis.length !== x.expressions.length + 1 ? `${x.quasis.length} quasis, ${x.expressions.length} expressions` : x.quasis.some((q, i) => q.tail !== (i === x.quasis.length - 1)) ? 'tail is not on the last quasi only' : null,
  Property: x => !isKey(x, 'key') ? `a ${x.key.type} as the name of a property` : x.shorthand && (x.computed || x.method || x.kind !== 'init') ? 'a shorthand that is computed, a method or an accessor'
    : x.shorthand && (x.key.type !== 'Identifier' || (x.value.type === 'AssignmentPattern' ? x.value.left : x.value).name !== x.key.name) ? 'a shorthand whose value is not its name'
    : (x.method || x.kind !== 'init') && x.value.type !== 'FunctionExpression' ? 'a method or accessor that is no function' : x.method && x.kind !== 'init' ? 'an accessor that is a method' : x.kind !== 'init' ? accessor(x.kind, x.value) : null,
  MethodDefinition: x => !isKey(x, 'key') ? `a ${x.key.type} as the name of a method` : x.kind === 'constructor' ? (x.computed || x.static || (x.key.name ?? x.key.value) !== 'constructor' || x.value.generator || x.value.async ? 'no constructor' : null) : (!x.computed && !x.static && x.kind === 'method' && (x.key.name ?? x.key.value) === 'constructor') ? 'a constructor that is a method' : x.value.id !== null ? 'a method with a name of its own' : accessor(x.kind, x.value),
  MetaProperty: x => x.meta.name !== 'new' || x.property.name !== 'target' ? `${x.meta.name}.${x.property.name}` : null,
  YieldExpression: x => x.delegate && !x.argument ? 'yield* of nothing' : null,
  ImportDeclaration: x => source(x) || x.specifiers.some((s, i) => i > 0 && s.type === 'ImportDefaultSpecifier') ? 'a default specifier that is not first' : x.specifiers.some(s => s.type === 'ImportNamespaceSpecifier') && x.specifiers.some(s => s.type === 'ImportSpecifier') ? 'named and namespace specifiers' : null,
  ExportNamedDeclaration: x => (x.declaration && (x.specifiers.length || x.source)) ? 'a declaration with specifiers' : x.source ? source(x) : null,
  ExportAllDeclaration: x => source(x), RestElement: x => x.argument.type === 'AssignmentPattern' ? 'a rest element with a default' : null,
};
const source = x => typeof x.source.value !== 'string' ? 'the source is no string' : null;
const forLeft = x => x.left.type === 'VariableDeclaration' ? x.left.declarations.length !== 1 ? 'more than one declarator' : x.left.declarations[0].init && !(x.type === 'ForInStatement' && x.left.kind === 'var') ? 'an initializer' : null : null;
