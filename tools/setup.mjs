// Builds the driver and its counting variant from /repo's working tree.
import { build, buildCounting, buildWrapper } from '../lib/driver.mjs';
build();
buildCounting();
buildWrapper();
console.log('built');
