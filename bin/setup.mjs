#!/usr/bin/env node
// Nothing is installed or prebuilt: every check bundles /repo's working tree itself. This only verifies
// that what the checks need is present.
import fs from 'node:fs';
import { UI, MCP, uiRequire, mcpRequire } from '../lib/paths.mjs';
for (const [req, names] of [[uiRequire, ['vue', 'jsdom', 'vite']]]) {
    for (const n of names) {
        req.resolve(n);
    }
}
for (const dir of [UI, MCP]) {
    fs.accessSync(dir);
}
console.log('setup: ok');
