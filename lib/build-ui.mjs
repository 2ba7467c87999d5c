// Bundles packages/vlossom/src/main.ts from /repo's working tree into one CommonJS text.
// The bundle text is evaluated anew for every explored execution, so every execution starts
// from fresh module state (stores, plugin singletons, id counters).
import fs from 'node:fs';
import path from 'node:path';
import { pathToFileURL } from 'node:url';
import { UI, uiRequire } from './paths.mjs';

const STUBS = {
    // deterministic ids: the only randomness in the library
    nanoid: `let n = 0; export const nanoid = () => 'nid' + (n++).toString(36).padStart(4, '0'); export const customAlphabet = () => nanoid;`,
    // drag and drop needs a real layout engine; sortablejs touches navigator at import time
    sortablejs: `export default class Sortable { option() {} destroy() {} save() {} toArray() { return []; } }`,
};

export async function build(outDir) {
    process.env.NODE_ENV = 'production';
    const vite = await import(pathToFileURL(uiRequire.resolve('vite')).href);
    const vuePlugin = (await import(pathToFileURL(uiRequire.resolve('@vitejs/plugin-vue')).href)).default;
    const entry = path.join(UI, 'src/main.ts');
    const result = await vite.build({
        root: UI,
        configFile: false,
        logLevel: 'error',
        mode: 'production',
        cacheDir: path.join(outDir, '.vite'),
        publicDir: false,
        define: { 'process.env.NODE_ENV': '"production"' },
        resolve: { alias: { '@': path.join(UI, 'src') } },
        plugins: [
            {
                name: 'verif-stubs',
                enforce: 'pre',
                resolveId(id) {
                    if (STUBS[id]) {
                        return '\0stub:' + id;
                    }
                    if (/\.(css|scss)(\?|$)/.test(id) || /\.vue\?.*type=style/.test(id)) {
                        return '\0stub:css';
                    }
                    return null;
                },
                load(id) {
                    if (id === '\0stub:css') {
                        return 'export default "";';
                    }
                    if (id.startsWith('\0stub:')) {
                        return STUBS[id.slice('\0stub:'.length)];
                    }
                    return null;
                },
            },
            vuePlugin({ isProduction: true }),
        ],
        build: {
            write: false,
            minify: false,
            target: 'node22',
            outDir,
            emptyOutDir: false,
            lib: { entry, formats: ['cjs'], fileName: () => 'ui.cjs' },
            rollupOptions: { external: ['vue'], treeshake: true, output: { inlineDynamicImports: true } },
        },
    });
    const outputs = (Array.isArray(result) ? result : [result]).flatMap((r) => r.output);
    const chunk = outputs.find((o) => o.type === 'chunk' && o.isEntry);
    const file = path.join(outDir, 'ui.cjs');
    fs.writeFileSync(file, chunk.code);
    return file;
}

if (process.argv[1] === new URL(import.meta.url).pathname) {
    const out = process.argv[2];
    fs.mkdirSync(out, { recursive: true });
    console.time('build');
    console.log(await build(out));
    console.timeEnd('build');
}
