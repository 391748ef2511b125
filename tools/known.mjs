import fs from 'fs';
const F=[];
const f=(p,g,s,w)=>F.push(`finding: property=${p} goal=${g} src=${JSON.stringify(s).replace(/[\u007f-\uffff]/g,c=>'\\u'+c.charCodeAt(0).toString(16).padStart(4,'0'))} ${w}`);
const LS='a lone surrogate escape is rejected, as a Rust string cannot hold its value';
for(const s of ['"\\uD800"',"'\\uDFFF'",'"\\u{D800}"','"a\\udc00b"']) f('C05','s',s,LS);
f('C05','s','"\\ud83d\\\n\\ude00"','the halves of a surrogate pair on two sides of a line continuation are rejected');
f('C06','s','`\\ud800`','a template with a lone surrogate escape is rejected, as a Rust string cannot hold its cooked value');
f('C06','s','t`\\ud800`','the cooked value of a tagged template with a lone surrogate escape is null, as a Rust string cannot hold it');
for(const s of ['\u0860','\u1c90','\u{2ceb0}','a\u08b5']) f('C08','s',s,'an identifier character added after Unicode 9, the version of the tables of the crate ucd, is rejected');
for(const l of fs.readFileSync(new URL('../fixlog.txt', import.meta.url),'utf8').trim().split('\n')){const [ps,h,m]=l.split('|');for(const p of ps.split(','))F.push(`fixed: property=${p} ${h} ${m.replace(/^fix: /,'')}`);}
fs.writeFileSync(new URL('../known-findings.txt', import.meta.url),'# Genuine defects of giron. "finding:" lines are recorded, not repaired, and identified by the exact\n# source; "fixed:" lines were repaired by the commit in /repo and suppress nothing.\n'+F.join('\n')+'\n');
