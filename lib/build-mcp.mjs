// Bundles packages/vlossom-mcp/src/index.ts (the server program) from /repo's working tree into one
// CommonJS text. It is evaluated anew for every explored execution, so caches and the session start empty.
import fs from 'node:fs';
import path from 'node:path';
import { MCP, mcpRequire } from './paths.mjs';

export async function build(outDir) {
    const esbuild = mcpRequire('esbuild');
    const src = path.join(MCP, 'src');
    const file = path.join(outDir, 'mcp.cjs');
    await esbuild.build({
        entryPoints: [path.join(src, 'index.ts')],
        bundle: true,
        platform: 'node',
        format: 'cjs',
        target: 'node22',
        outfile: file,
        logLevel: 'error',
        external: ['@modelcontextprotocol/sdk/*', 'zod'],
        plugins: [
            {
                // files keep the directory they have in the compiled package
                name: 'dirname',
                setup(b) {
                    b.onLoad({ filter: /\.ts$/ }, (args) => {
                        const text = fs.readFileSync(args.path, 'utf8');
                        if (!args.path.startsWith(src) || !text.includes('__dirname')) {
                            return undefined;
                        }
                        const dir = path.join(MCP, 'dist', path.relative(src, path.dirname(args.path)));
                        return { contents: text.replace(/\b__dirname\b/g, JSON.stringify(dir)), loader: 'ts' };
                    });
                },
            },
        ],
    });
    return file;
}

if (process.argv[1] === new URL(import.meta.url).pathname) {
    fs.mkdirSync(process.argv[2], { recursive: true });
    console.time('build');
    console.log(await build(process.argv[2]));
    console.timeEnd('build');
}
