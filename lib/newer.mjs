// Identifier characters added after Unicode 9.0, the version of the tables giron
// uses (crate ucd): the known finding of C08 (see known-findings.txt). A
// source with one of them is not judged elsewhere.
const RANGES = [
  [0x558, 0x558], [0x560, 0x560], [0x588, 0x588], [0x58b, 0x58c], [0x5c8, 0x5c9], [0x5ef, 0x5ef],
  [0x7fd, 0x7fd], [0x860, 0x86a], [0x870, 0x887], [0x889, 0x88f], [0x897, 0x89f], [0x8b5, 0x8b5],
  [0x8be, 0x8d3], [0x9fc, 0x9fc], [0x9fe, 0x9fe], [0xafa, 0xaff], [0xb53, 0xb55], [0xc04, 0xc04],
  [0xc3c, 0xc3c], [0xc5c, 0xc5d], [0xcdc, 0xcdd], [0xcf3, 0xcf3], [0xd00, 0xd00], [0xd04, 0xd04],
  [0xd3b, 0xd3c], [0xd81, 0xd81], [0xe86, 0xe86], [0xe89, 0xe89], [0xe8c, 0xe8c], [0xe8e, 0xe93],
  [0xe98, 0xe98], [0xea0, 0xea0], [0xea8, 0xea9], [0xeac, 0xeac], [0xeba, 0xeba], [0xece, 0xece],
  [0x170d, 0x170d], [0x1715, 0x1715], [0x171f, 0x171f], [0x180f, 0x180f], [0x1878, 0x1878],
  [0x1abf, 0x1af0], [0x1b4c, 0x1b4c], [0x1c89, 0x1c8a], [0x1c90, 0x1cba], [0x1cbd, 0x1cbf],
  [0x1cf2, 0x1cf3], [0x1cf7, 0x1cf7], [0x1cfa, 0x1cfa], [0x1df6, 0x1dfa], [0x208f, 0x208f],
  [0x209d, 0x209f], [0x2c2f, 0x2c2f], [0x2c5f, 0x2c5f], [0x30fb, 0x30fb], [0x312e, 0x312f],
  [0x31bb, 0x31bf], [0x4db6, 0x4dbf], [0x9fd6, 0x9fff], [0xa7af, 0xa7af], [0xa7b8, 0xa7dd],
  [0xa7e2, 0xa7e2], [0xa7f1, 0xa7f6], [0xa82c, 0xa82c], [0xa8fe, 0xa8ff], [0xab66, 0xab69],
  [0xab6c, 0xab6d], [0xff65, 0xff65], [0x1032d, 0x1032f], [0x10570, 0x1057a], [0x1057c, 0x1058a],
  [0x1058c, 0x10592], [0x10594, 0x10595], [0x10597, 0x105a1], [0x105a3, 0x105b1],
  [0x105b3, 0x105b9], [0x105bb, 0x105bc], [0x105c0, 0x105f3], [0x10780, 0x10785],
  [0x10787, 0x107b0], [0x107b2, 0x107bf], [0x10940, 0x10959], [0x10a34, 0x10a35],
  [0x10d00, 0x10d27], [0x10d30, 0x10d39], [0x10d40, 0x10d65], [0x10d69, 0x10d6d],
  [0x10d6f, 0x10d85], [0x10e80, 0x10ea9], [0x10eab, 0x10eac], [0x10eb0, 0x10eb1],
  [0x10ec2, 0x10ec7], [0x10ecb, 0x10ecf], [0x10ed9, 0x10eee], [0x10ef0, 0x10f1c],
  [0x10f27, 0x10f27], [0x10f30, 0x10f50], [0x10f70, 0x10f85], [0x10fb0, 0x10fc4],
  [0x10fe0, 0x10ff6], [0x11070, 0x11075], [0x110c2, 0x110c2], [0x11144, 0x11147],
  [0x111c9, 0x111c9], [0x111ce, 0x111cf], [0x1123f, 0x11241], [0x1133b, 0x1133b],
  [0x11380, 0x11389], [0x1138b, 0x1138b], [0x1138e, 0x1138e], [0x11390, 0x113b5],
  [0x113b7, 0x113c0], [0x113c2, 0x113c2], [0x113c5, 0x113c5], [0x113c7, 0x113ca],
  [0x113cc, 0x113d3], [0x113e1, 0x113e2], [0x1145e, 0x11461], [0x116b8, 0x116b8],
  [0x116d0, 0x116e3], [0x1171a, 0x1171a], [0x11740, 0x11746], [0x11800, 0x1183a],
  [0x11900, 0x11906], [0x11909, 0x11909], [0x1190c, 0x11913], [0x11915, 0x11916],
  [0x11918, 0x11935], [0x11937, 0x11938], [0x1193b, 0x11943], [0x11950, 0x11959],
  [0x119a0, 0x119a7], [0x119aa, 0x119d7], [0x119da, 0x119e1], [0x119e3, 0x119e4],
  [0x11a00, 0x11a3e], [0x11a47, 0x11a47], [0x11a50, 0x11a99], [0x11a9d, 0x11a9d],
  [0x11ab0, 0x11abf], [0x11b0a, 0x11b0a], [0x11b60, 0x11b67], [0x11bc0, 0x11be0],
  [0x11bf0, 0x11bf9], [0x11d00, 0x11d06], [0x11d08, 0x11d09], [0x11d0b, 0x11d36],
  [0x11d3a, 0x11d3a], [0x11d3c, 0x11d3d], [0x11d3f, 0x11d47], [0x11d50, 0x11d59],
  [0x11d60, 0x11d65], [0x11d67, 0x11d68], [0x11d6a, 0x11d8e], [0x11d90, 0x11d91],
  [0x11d93, 0x11d98], [0x11da0, 0x11da9], [0x11db0, 0x11ddb], [0x11de0, 0x11de9],
  [0x11df0, 0x11df1], [0x11ee0, 0x11ef6], [0x11f00, 0x11f10], [0x11f12, 0x11f3a],
  [0x11f3e, 0x11f42], [0x11f50, 0x11f5a], [0x11fb0, 0x11fb0], [0x1246f, 0x1246f],
  [0x12475, 0x1247f], [0x12550, 0x12686], [0x12f90, 0x12ff0], [0x1342f, 0x1342f],
  [0x13440, 0x13455], [0x13460, 0x143fa], [0x16100, 0x16139], [0x16a70, 0x16abe],
  [0x16ac0, 0x16ac9], [0x16d40, 0x16d6c], [0x16d70, 0x16d79], [0x16e40, 0x16e7f],
  [0x16ea0, 0x16eb8], [0x16ebb, 0x16ed3], [0x16f45, 0x16f4a], [0x16f4f, 0x16f4f],
  [0x16f7f, 0x16f87], [0x16fe1, 0x16fe1], [0x16fe3, 0x16fe4], [0x16ff0, 0x16ff6],
  [0x187ed, 0x187ff], [0x18af3, 0x18cda], [0x18cff, 0x18d20], [0x18d80, 0x18df2],
  [0x18e00, 0x19191], [0x191a0, 0x191d2], [0x1aff0, 0x1aff3], [0x1aff5, 0x1affb],
  [0x1affd, 0x1affe], [0x1b002, 0x1b128], [0x1b132, 0x1b132], [0x1b150, 0x1b152],
  [0x1b155, 0x1b155], [0x1b164, 0x1b168], [0x1b170, 0x1b2fb], [0x1ccf0, 0x1ccf9],
  [0x1cf00, 0x1cf2d], [0x1cf30, 0x1cf46], [0x1d127, 0x1d128], [0x1d250, 0x1d252],
  [0x1d25b, 0x1d25c], [0x1d25f, 0x1d25f], [0x1d280, 0x1d281], [0x1d6a6, 0x1d6a6],
  [0x1df00, 0x1df81], [0x1df90, 0x1df96], [0x1dfcd, 0x1dfff], [0x1e030, 0x1e06d],
  [0x1e08f, 0x1e08f], [0x1e100, 0x1e12c], [0x1e130, 0x1e13d], [0x1e140, 0x1e149],
  [0x1e14e, 0x1e14e], [0x1e290, 0x1e2ae], [0x1e2c0, 0x1e2f9], [0x1e4d0, 0x1e4f9],
  [0x1e5d0, 0x1e5fa], [0x1e6c0, 0x1e6de], [0x1e6e0, 0x1e6f5], [0x1e6fe, 0x1e6ff],
  [0x1e7e0, 0x1e7e6], [0x1e7e8, 0x1e7eb], [0x1e7ed, 0x1e7ee], [0x1e7f0, 0x1e7fe],
  [0x1e94b, 0x1e94b], [0x1fbf0, 0x1fbf9], [0x2a6d7, 0x2a6df], [0x2b735, 0x2b73f],
  [0x2b81e, 0x2b81e], [0x2cea2, 0x2cead], [0x2ceb0, 0x2ebe0], [0x2ebf0, 0x2ee5d],
  [0x30000, 0x3134a], [0x31350, 0x33479], [0x3d000, 0x3fc3f],
];
const starts = RANGES.map(r => r[0]);
export function isNewer(cp) {
  let lo = 0, hi = RANGES.length;
  while (lo < hi) { const m = (lo + hi) >> 1; if (starts[m] <= cp) lo = m + 1; else hi = m; }
  return lo > 0 && cp <= RANGES[lo - 1][1];
}
export function hasNewer(src) {
  for (let i = 0; i < src.length; i++) {
    const c = src.charCodeAt(i);
    if (c >= 0x80) { const cp = src.codePointAt(i); if (isNewer(cp)) return true; if (cp > 0xffff) i++; }
    else if (c === 92 && src.charCodeAt(i + 1) === 117) { const m = /^\\u(?:\{([0-9a-fA-F]+)\}|([0-9a-fA-F]{4}))/.exec(src.slice(i, i + 24)); if (m && isNewer(parseInt(m[1] ?? m[2], 16))) return true; }
  }
  return false;
}
