// The repository and the requests shared by the MCP checks.
import { files } from './mcp-repo.mjs';

const styles = (tone) => ({
    'variables.css': `@layer base {\n    :root {\n        --vs-app-bg: ${tone};\n\n        @variant dark {\n            --vs-app-bg: dark-${tone};\n        }\n\n        --vs-radius-md: 1rem;\n    }\n}\n`,
    'palette.css': `:root {\n    --vs-red-100: #f00;\n    --vs-blue-100: ${tone};\n}\n`,
    'color-scheme-variables.css': `:root {\n    --vs-comp-bg: ${tone};\n}\n`,
});

// every version documents something different, so an answer shows which version it was read from
export function library(version, tag, extra = {}) {
    return files({
        version: tag,
        components: [
            {
                name: 'VsButton',
                description: `Button of ${tag}.`,
                props: [
                    { name: 'size', type: "'sm' | 'lg'", default: `'${tag}'`, description: `Size in ${tag}` },
                    { name: `only${tag.replace(/\W/g, '')}`, type: 'boolean', default: 'false' },
                ],
                slots: ['default'],
                events: ['press'],
            },
            {
                name: 'VsInput',
                description: `Input of ${tag}.`,
                availableVersion: '2.1.0+',
                props: [{ name: 'modelValue', type: 'string' }, { name: 'fieldName', required: true }],
                events: ['update:modelValue'],
                slots: ['label'],
                methods: ['focus'],
            },
            { name: 'VsModal', description: `Modal of ${tag}.`, slots: ['default', 'header'], source: `<!-- modal of ${tag} -->` },
            ...(extra.components ?? []),
        ],
        directives: [{ name: 'tooltip', description: `Tooltip of ${tag}.` }, ...(extra.directives ?? [])],
        composables: [
            { dir: 'scroll-lock', name: 'useScrollLock', description: `Scroll lock of ${tag}.` },
            { dir: 'inner-thing', name: 'useInnerThing', exported: false },
            ...(extra.composables ?? []),
        ],
        plugins: [{ name: 'toast', description: `Toast of ${tag}.` }, ...(extra.plugins ?? [])],
        readme: `# Vlossom\n\n## Setup\n\n\`\`\`ts\n// setup of ${tag}\n\`\`\`\n`,
        styles: styles(tag.replace(/\W/g, '')),
    });
}

export const releases = [
    { tag_name: 'vlossom-v2.0.0', name: null, draft: false, prerelease: false, published_at: '2025-02-01T00:00:00Z', body: '## Breaking changes\n- gone\n\n## Features\n- new button\n' },
    { tag_name: 'v2.10.0', name: null, draft: false, prerelease: false, published_at: '2025-06-01T00:00:00Z', body: '## Bug fixes\n* repaired\n' },
    { tag_name: 'vlossom-v2.9.0', name: null, draft: false, prerelease: true, published_at: '2025-05-01T00:00:00Z', body: null },
    { tag_name: 'v3.0.0', name: null, draft: true, prerelease: false, published_at: null, body: 'draft' },
];

export const repo = {
    refs: {
        main: library('2.10.0', 'main', { components: [{ name: 'VsNewThing', description: 'Only on main.', availableVersion: '2.10.0+' }] }),
        'vlossom-v2.0.0': library('2.0.0', 'tag-2.0.0'),
        'v2.1.0': library('2.1.0', 'v-2.1.0'),
        '2.2.0': library('2.2.0', 'plain-2.2.0'),
        'vlossom-v2.3.0': library('2.3.0', 'tag-2.3.0'),
        'v2.3.0': library('2.3.0', 'v-2.3.0'),
        '2.3.0': library('2.3.0', 'plain-2.3.0'),
        'v2.4.0': library('2.4.0', 'v-2.4.0'),
        '2.4.0': library('2.4.0', 'plain-2.4.0'),
        // names which differ in one part only
        'vlossom-v2.5.0': library('2.5.0', 'tag-2.5.0'),
        'v2.5.0-beta.1': library('2.5.0-beta.1', 'v-2.5.0-beta.1'),
        'vlossom-v2.5.0-beta.10': library('2.5.0-beta.10', 'tag-2.5.0-beta.10', { directives: [{ name: 'extra', description: 'Extra.' }] }),
        'vlossom-v2.6.0-beta.1': library('2.6.0-beta.1', 'tag-2.6.0-beta.1', { components: [{ name: 'VsNewThing', description: 'In the beta.' }], composables: [{ dir: 'extra', name: 'useExtra', description: 'Extra.' }] }),
        'v12.5.0': library('12.5.0', 'v-12.5.0', { components: [{ name: 'VsNewThing', description: 'Far ahead.' }], plugins: [{ name: 'extra', description: 'Extra.' }] }),
    },
    releases,
};

const dep = (range) => JSON.stringify({ dependencies: { vlossom: range } });

// ways of saying which version the project uses, with the ref it means
export const VERSIONS = {
    none: { args: {}, ref: 'main' },
    tag: { args: { version: '2.0.0' }, ref: 'vlossom-v2.0.0' },
    range: { args: { packageJson: dep('^2.0.0') }, ref: 'vlossom-v2.0.0' },
    v: { args: { packageJson: dep('~2.1.0') }, ref: 'v2.1.0' },
    plain: { args: { version: '2.2.0' }, ref: '2.2.0' },
    absent: { args: { version: '2.10.0' }, ref: 'main' },
    latest: { args: { packageJson: dep('latest') }, ref: 'main' },
};
const NEAR = Object.fromEntries(['2.5.0', '2.5.0-beta.1', '2.5.0-beta.10', '2.6.0-beta.1', '12.5.0'].map((version) => [version, { args: { version } }]));
export const near = Object.keys(NEAR);

const SFC = `<template>\n  <vs-button size="sm" @press-hard="x">a</vs-button>\n  <vs-input v-model="m" />\n  <vs-nope />\n  <button>b</button>\n</template>\n<script setup>\nimport { VsModal, VsGhost } from 'vlossom'\nimport x from 'vuetify'\n</script>`;

const call = (name, args) => ({ method: 'tools/call', params: { name, arguments: args } });
const inContext = (name, args, v) => call(name, { ...args, context: { ...(args.context ?? {}), ...v } });

// label -> (version arguments) -> request
export const REQUESTS = {
    findButton: (v) => call('search_vlossom', { query: 'button', ...v }),
    listAll: (v) => call('search_vlossom', { limit: 3, ...v }),
    findNew: (v) => call('search_vlossom', { query: 'new thing', ...v }),
    findToken: (v) => call('search_vlossom', { query: 'bg', target: 'token', ...v }),
    findDirective: (v) => call('search_vlossom', { target: 'directive', ...v }),
    findComposable: (v) => call('search_vlossom', { query: 'scroll', target: 'composable', ...v }),
    findAny: (v) => call('search_vlossom', { query: 'button', target: 'all', ...v }),
    coverage: (v) => call('search_vlossom', { query: 'modal with a button', intent: 'build-ui', ...v }),
    findRelease: (v) => call('search_vlossom', { query: 'button', target: 'changelog', ...v }),
    refButton: (v) => call('get_vlossom_reference', { type: 'component', id: 'VsButton', ...v }),
    refInput: (v) => call('get_vlossom_reference', { type: 'component', id: 'vs-input', ...v }),
    refLower: (v) => call('get_vlossom_reference', { type: 'component', id: 'vsButton', ...v }),
    refSource: (v) => call('get_vlossom_reference', { type: 'component', id: 'VsModal', include: ['source', 'examples'], ...v }),
    refNone: (v) => call('get_vlossom_reference', { type: 'component', id: 'VsNope', ...v }),
    refNew: (v) => call('get_vlossom_reference', { type: 'component', id: 'VsNewThing', ...v }),
    refDirectives: (v) => call('get_vlossom_reference', { type: 'directive', ...v }),
    refDirective: (v) => call('get_vlossom_reference', { type: 'directive', id: 'v-tooltip', ...v }),
    refComposable: (v) => call('get_vlossom_reference', { type: 'composable', id: 'useScrollLock', ...v }),
    refComposables: (v) => call('get_vlossom_reference', { type: 'composable', ...v }),
    refToken: (v) => call('get_vlossom_reference', { type: 'token', id: '--vs-app-bg', ...v }),
    refOption: (v) => call('get_vlossom_reference', { type: 'option', ...v }),
    refRelease: (v) => call('get_vlossom_reference', { type: 'changelog', ...v }),
    refRule: (v) => call('get_vlossom_reference', { type: 'rule', id: 'PREFER_VLOSSOM_COMPONENT', ...v }),
    usage: (v) => inContext('scaffold_vlossom_code', { kind: 'component-usage', description: 'a form', components: ['VsInput', 'VsButton'] }, v),
    usageNew: (v) => inContext('scaffold_vlossom_code', { kind: 'component-usage', description: 'a thing', components: ['VsNewThing'] }, v),
    styleSet: (v) => inContext('scaffold_vlossom_code', { kind: 'style-set', description: 'a look', component: 'VsButton' }, v),
    setup: (v) => inContext('scaffold_vlossom_code', { kind: 'project-setup', description: 'new' }, v),
    checkSfc: (v) => ('packageJson' in v ? call('validate_vlossom_usage', { kind: 'sfc', code: SFC, ...v }) : inContext('validate_vlossom_usage', { kind: 'sfc', code: SFC }, v)),
    checkStyleSet: (v) => ('packageJson' in v ? call('validate_vlossom_usage', { kind: 'style-set', code: 'const s: VsButtonStyleSet = {\n  variables: {\n    tone: 1,\n    nope: 2,\n  },\n}', ...v }) : inContext('validate_vlossom_usage', { kind: 'style-set', code: 'const s: VsButtonStyleSet = {\n  variables: {\n    tone: 1,\n    nope: 2,\n  },\n}' }, v)),
};

// requests which cannot name a version
export const RESOURCES = {
    components: { method: 'resources/read', params: { uri: 'vlossom://components' } },
    component: { method: 'resources/read', params: { uri: 'vlossom://components/VsButton' } },
    tokens: { method: 'resources/read', params: { uri: 'vlossom://tokens/css' } },
    releases: { method: 'resources/read', params: { uri: 'vlossom://changelog' } },
    list: { method: 'resources/list', params: {} },
};

// "refButton@tag" or "components"
export function request(label) {
    const [kind, version] = label.split('@');
    return version ? REQUESTS[kind]((VERSIONS[version] ?? NEAR[version]).args) : RESOURCES[kind];
}

export const labels = (kinds = Object.keys(REQUESTS), versions = Object.keys(VERSIONS), resources = Object.keys(RESOURCES)) => [
    ...kinds.flatMap((k) => versions.map((v) => `${k}@${v}`)),
    ...resources,
];

// what an answer says, without the account of the session
export function content(message) {
    if (!message) {
        return { missing: true };
    }
    if (message.error) {
        return { rpcError: message.error.message };
    }
    const r = message.result;
    if (r.structuredContent !== undefined) {
        return r.structuredContent;
    }
    if (r.contents) {
        return { contents: r.contents.map((c) => ({ ...c, text: c.mimeType === 'application/json' ? JSON.parse(c.text) : c.text })) };
    }
    return r.isError ? { toolError: r.content } : r;
}
