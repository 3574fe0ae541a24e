// Prints the syntax tree (ESTree, with line numbers) of the JavaScript read from stdin.
const acorn = require(process.argv[2] + '/acorn');
const text = require('fs').readFileSync(0, 'utf8');
const tree = acorn.parse(text, { ecmaVersion: 'latest', sourceType: process.argv[3] || 'module', locations: true, allowReturnOutsideFunction: true });
process.stdout.write(JSON.stringify(tree, (k, v) => (typeof v === 'bigint' ? String(v) : k === 'start' || k === 'end' ? (k === 'start' && v && v.line ? v : undefined) : v)));
