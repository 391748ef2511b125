import { workerMain } from './check.mjs';
await workerMain();
