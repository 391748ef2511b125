// node checks/run.mjs C04 [quick|thorough|replay FILE]
import { runCheck } from '../lib/check.mjs';
const id = process.argv.splice(2, 1)[0];
const file = new URL(`./${id.toLowerCase()}.mjs`, import.meta.url).href;
const check = (await import(file)).default;
check.file = file;
try { await runCheck(check); } catch (e) { console.error(e && e.stack || e); process.exit(2); }
