// Delta debugging over tokens, several candidates per driver batch.
const TOK = /\s+|\/\*[^]*?\*\/|\/\/[^\n]*\n?|[\p{ID_Start}$_\\][\p{ID_Continue}$\u200c\u200d\\{}]*|"(?:[^"\\]|\\[^])*"|'(?:[^'\\]|\\[^])*'|\d[\w.]*|=>|\.\.\.|\*\*=?|[-+*\/%&|^<>=!]=+|&&|\|\||\+\+|--|[^]/gu;
export async function minimise(src, test /* (srcs) -> bool[] */, { rounds = 300, ms = 15_000 } = {}) {
  let units = src.match(TOK) || [src];
  let left = rounds; const until = Date.now() + ms;
  const tryAll = async cands => {
    if (!cands.length || left-- <= 0 || Date.now() > until) return -1;
    const ok = await test(cands.map(c => c.join('')));
    return ok.indexOf(true);
  };
  let chunk = Math.max(1, units.length >> 1);
  while (left > 0) {
    const cands = [];
    for (let i = 0; i < units.length; i += Math.max(1, chunk >> 1)) cands.push([...units.slice(0, i), ...units.slice(i + chunk)]);
    const k = await tryAll(cands.filter(c => c.length < units.length));
    if (k >= 0) { units = cands.filter(c => c.length < units.length)[k]; chunk = Math.min(chunk, Math.max(1, units.length >> 1)); continue; }
    if (chunk > 1) { chunk >>= 1; continue; }
    break;
  }
  // replace single tokens by a plain name, drop pairs of brackets
  for (let again = true; again && left > 0;) {
    again = false;
    const cands = [];
    units.forEach((u, i) => { if (u !== 'a' && /^["'\d\p{ID_Start}$_\/]/u.test(u)) cands.push([...units.slice(0, i), 'a', ...units.slice(i + 1)]); });
    for (let i = 0; i < units.length; i++) {
      const close = { '(': ')', '[': ']', '{': '}' }[units[i]];
      if (!close) continue;
      for (let j = i + 1; j < units.length; j++) if (units[j] === close) cands.push(units.filter((_, x) => x !== i && x !== j));
    }
    const k = await tryAll(cands.slice(0, 400));
    if (k >= 0) { units = cands[k]; again = true; }
  }
  return units.join('');
}
