import { createRequire } from 'node:module';
import path from 'node:path';
import { fileURLToPath } from 'node:url';

export const VERIF = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..');
export const REPO = process.env.VERIF_REPO || '/repo';
export const UI = path.join(REPO, 'packages/vlossom');
export const MCP = path.join(REPO, 'packages/vlossom-mcp');
export const uiRequire = createRequire(path.join(UI, 'package.json'));
export const mcpRequire = createRequire(path.join(MCP, 'package.json'));
