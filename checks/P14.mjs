// What the library documents is what the server answers, entry by entry.
import { GitHub } from '../lib/mcp-env.mjs';
import { files, table } from '../lib/mcp-repo.mjs';
import { json, product, permutations } from '../lib/kit.mjs';

const code = (s) => (s === '' ? '' : '`' + s.replace(/\|/g, '\\|') + '`');
const plain = (s) => s.replace(/\|/g, '\\|');

async function serve(world, spec, releases = []) {
    const github = new GitHub({ refs: { main: spec.raw ?? files({ version: '2.5.0', ...spec }) }, releases });
    return world.server({ github });
}

async function reference(server, args) {
    const { data } = await server.call('get_vlossom_reference', args);
    return data;
}

// objects are compared without regard to the order of their keys
const sorted = (v) => (Array.isArray(v) ? v.map(sorted) : v && typeof v === 'object' ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, sorted(v[k])])) : v);
const written = (v) => (v === undefined ? v : JSON.parse(JSON.stringify(v))); // as text carries it
const differs = (what, got, want) => (json(sorted(got)) === json(sorted(want)) ? null : `${what} is ${json(got)} instead of ${json(want)}`);

// ---- tables of a component ----
const TYPES = ['string', "'a' | 'b'", "'a' | 'b' | 'c' | null", '(a, b?) => boolean', ''];
const DEFAULTS = ['', "'md'", '{ a: 1 }', '-'];
const REQUIRED = [['Yes', true], ['', false], ['-', false], ['✅', true]];
const DESCRIPTIONS = ['', 'Plain words', 'One | other | third', 'Set `x` first'];
const HEADS = [
    ['Prop', 'Type', 'Default', 'Required', 'Description'],
    ['Prop', 'Type', 'Default', 'Description'],
    ['Prop', 'Description', 'Required', 'Type', 'Default'],
];

function propRow(head, p) {
    const cells = { Prop: code(p.name), Type: code(p.type), Default: p.default === '-' ? '-' : code(p.default), Required: p.requiredText, Description: plain(p.description) };
    return head.map((h) => cells[h]);
}

function readme(name, sections, { description = `About ${name}.`, version = '2.0.0+', note = true } = {}) {
    return [note ? '> 한국어 문서는 [README.ko.md](./README.ko.md)를 참고하세요.\n' : '', `# ${name}\n`, `${description}\n`, version === null ? '' : `**Available Version**: ${version}\n`, '## Basic Usage\n', '```html\n<template><b a="x | y" /></template>\n```\n', ...sections].join('\n');
}

const SECTIONS = {
    props: [
        ['## Props\n', table(['Prop', 'Type', 'Default', 'Required', 'Description'], [['`first`', '`string`', '', '', 'A'], ['`second`', '`A \\| B`', '`1`', 'Yes', 'B']]), ''].join('\n'),
        [{ name: 'first', type: 'string', default: '', required: false, description: 'A' }, { name: 'second', type: 'A | B', default: '1', required: true, description: 'B' }],
    ],
    events: [
        ['## Events\n', 'Some words first.\n', table(['Event', 'Payload', 'Description'], [['`update:modelValue`', '`string \\| null`', 'Changed'], ['`press-hard`', '', '']]), ''].join('\n'),
        [{ name: 'update:modelValue', payload: 'string | null', description: 'Changed' }, { name: 'press-hard', payload: '', description: '' }],
    ],
    slots: [
        ['## Slots\n', table(['Slot', 'Description'], [['`default`', 'Body'], ['`item-name`', 'Named']]), ''].join('\n'),
        [{ name: 'default', description: 'Body' }, { name: 'item-name', description: 'Named' }],
    ],
    methods: [
        ['## Methods\n', table(['Method', 'Parameters', 'Description'], [['`focus`', '-', 'Focuses'], ['`go`', '`index: number \\| null`', 'Goes']]), ''].join('\n'),
        [{ name: 'focus', parameters: '-', description: 'Focuses' }, { name: 'go', parameters: 'index: number | null', description: 'Goes' }],
    ],
};
const EMPTY = {
    props: ['## Props\n', table(['Prop', 'Type', 'Default', 'Required', 'Description'], []), ''].join('\n'),
    events: ['## Events\n', table(['Event', 'Payload', 'Description'], []), ''].join('\n'),
    slots: ['## Slots\n', table(['Slot', 'Description'], []), ''].join('\n'),
    methods: ['## Methods\n', 'There are none.', ''].join('\n'),
};
const TYPE_SECTION = '## Types\n\n```typescript\ninterface VsThingStyleSet extends CSSProperties {\n    $content?: CSSProperties;\n}\n```\n';

// ---- StyleSet interfaces ----
function styleInterface({ base, variables, component, children }) {
    const lines = [`export interface VsThingStyleSet${base} {`];
    const want = { variables: {}, component: false, childRefs: [] };
    if (variables.length) {
        lines.push('    variables?: {');
        for (const [k, t] of variables) {
            if (typeof t === 'string') {
                lines.push(`        ${k}?: ${t};`);
                want.variables[k] = t;
            } else {
                lines.push(`        ${k}?: {`, ...t.map(([kk, tt]) => `            ${kk}?: ${tt};`), '        };');
                t.forEach(([kk, tt]) => (want.variables[`${k}.${kk}`] = tt));
            }
        }
        lines.push('    };');
    }
    if (component) {
        lines.push('    component?: CSSProperties;');
        want.component = true;
    }
    for (const [k, ref, omit] of children) {
        lines.push(omit ? `    ${k}?: Omit<${ref}, 'component'>;` : `    ${k}?: ${ref};`);
        if (!want.childRefs.includes(ref) && ref.startsWith('Vs')) {
            want.childRefs.push(ref);
        }
    }
    lines.push('}');
    want.raw = lines.join('\n');
    return want;
}

// ---- css ----
function css(decls, wrapped) {
    const body = [];
    for (const { name, light, dark } of decls) {
        if (dark && name.length % 2) {
            body.push('@variant dark {', `    ${name}: ${dark};`, '}');
        }
        if (light) {
            body.push(`${name}: ${light};`);
        }
        if (dark && !(name.length % 2)) {
            body.push('@variant dark {', `    ${name}: ${dark};`, '}');
        }
    }
    const inner = body.map((l) => `        ${l}`).join('\n');
    return wrapped ? `@layer base {\n    :root {\n${inner}\n    }\n}\n` : `:root {\n${inner}\n}\n`;
}

const CATEGORIES = {
    '--vs-red-100': 'palette', '--vs-sky-500': 'palette', '--vs-white': 'palette',
    '--vs-font-size-md': 'typography', '--vs-font-weight-bold': 'typography', '--vs-line-height': 'typography', '--vs-white-space': 'typography',
    '--vs-radius-md': 'radius', '--vs-padding-md': 'spacing', '--vs-comp-height-md': 'size', '--vs-size-font': 'size',
    '--vs-modal-z-index': 'z-index', '--vs-app-bg': 'color-scheme', '--vs-cs-bg': 'color-scheme', '--vs-no-color': 'color-scheme',
    '--vs-comp-bg': 'color-scheme', '--vs-other': 'misc',
};

// ---- releases ----
const CORES = ['2.0.0', '2.10.0', '2.9.0', '10.0.0', '2.9.11'];

// headings of release notes and where their items belong
const HEADINGS = [
    ['Breaking Changes', 'breaking'], ['BREAKING', 'breaking'], ['Migration', 'breaking'],
    ['Features', 'features'], ["What's new", 'features'], ['Added', 'features'],
    ['Fixes', 'fixes'], ['Bugs', 'fixes'], ['Patches', 'fixes'],
    ['Thanks', null], ['Contributors', null],
];

const INCLUDES = ['summary', 'api', 'props', 'slots', 'events', 'methods', 'styleSet', 'examples', 'source', 'relationships', 'migration', 'rules'];

export default {
    id: 'P14',
    world: 'mcp',
    method: 'documents are generated from every combination of a small set of structured descriptions, served through a simulated GitHub to the real server, and every field of every answer is compared with the description',
    assumptions: ['documents follow the layout of the repository: one heading per section, pipes in cells escaped'],
    scenarios(tier) {
        const deep = true;
        return [
            ...(tier === 'thorough' ? [{ name: 'rowPairs', enumerate: true }] : []),
            { name: 'rows', enumerate: true, deep },
            { name: 'sections', enumerate: true, deep },
            { name: 'layouts', enumerate: true, deep },
            { name: 'interfaces', enumerate: true, deep },
            { name: 'includes', enumerate: true, deep },
            { name: 'many', enumerate: true, deep },
            { name: 'others', enumerate: true, deep },
            { name: 'tokens', enumerate: true, deep },
            { name: 'releases', enumerate: true, deep },
            { name: 'notes', enumerate: true, deep },
        ];
    },

    enumerator(world, scenario) {
        const cases = this[scenario.name](scenario.deep);
        return {
            total: cases.length,
            evaluate: async (i) => {
                const { sample, run } = cases[i];
                const violation = await run(world);
                return { state: `${scenario.name}${i}`, sample, outcome: scenario.name, transitions: 1, violation: violation && `${scenario.name} ${json(sample).slice(0, 300)}: ${violation}` };
            },
        };
    },

    rows(deep) {
        const out = [];
        for (const [head, type, def, [requiredText, required], description] of product(HEADS, TYPES, DEFAULTS, REQUIRED, DESCRIPTIONS)) {
            const hasRequired = head.includes('Required');
            if (!hasRequired && requiredText !== '' && !deep) {
                continue;
            }
            const p = { name: 'midProp', type, default: def, requiredText, description };
            const around = (name) => ({ name, type: 'number', default: '', requiredText: '', description: name });
            out.push({
                sample: { head: head.length, p },
                run: async (world) => {
                    const md = readme('VsThing', ['## Props\n', table(head, ['firstProp', null, 'lastProp'].map((n) => propRow(head, n ? around(n) : p))), '']);
                    const server = await serve(world, { components: [{ name: 'VsThing', readme: md }] });
                    const { reference: r } = await reference(server, { type: 'component', id: 'VsThing', include: ['props'] });
                    const flat = (n) => ({ name: n, type: 'number', default: '', required: false, description: n });
                    return differs('the prop list', r?.props, [flat('firstProp'), { name: 'midProp', type, default: def, required: hasRequired && required, description }, flat('lastProp')]);
                },
            });
        }
        return out;
    },

    // two rows that both vary
    rowPairs() {
        const out = [];
        const head = HEADS.find((h) => h.includes('Required'));
        const cells = product(TYPES, DEFAULTS, REQUIRED);
        for (const [[ta, da, ra], [tb, db, rb]] of product(cells, cells)) {
            const rows = [['aProp', ta, da, ra], ['bProp', tb, db, rb]];
            out.push({
                sample: rows,
                run: async (world) => {
                    const md = readme('VsThing', ['## Props\n', table(head, rows.map(([name, type, def, r]) => propRow(head, { name, type, default: def, requiredText: r[0], description: name }))), '']);
                    const server = await serve(world, { components: [{ name: 'VsThing', readme: md }] });
                    const { reference: r } = await reference(server, { type: 'component', id: 'VsThing', include: ['props'] });
                    return differs('the prop list', r?.props, rows.map(([name, type, def, q]) => ({ name, type, default: def, required: q[1], description: name })));
                },
            });
        }
        return out;
    },

    sections(deep) {
        const out = [];
        const names = Object.keys(SECTIONS);
        for (const states of product([0, 1, 2], [0, 1, 2], [0, 1, 2], [0, 1, 2])) {
            const present = names.filter((_, i) => states[i]);
            for (const order of permutations(present)) {
                for (const types of deep || order.length > 2 ? [-1, 0, 1] : [-1, 0]) {
                    const variant = (states.join('').length + order.length + types) % 2;
                    out.push({
                        sample: { order, states, types },
                        run: async (world) => {
                            const parts = order.map((n) => (states[names.indexOf(n)] === 1 ? SECTIONS[n][0] : EMPTY[n]));
                            if (types >= 0) {
                                parts.splice(types, 0, TYPE_SECTION);
                            }
                            const version = variant ? '2.4.0+' : null;
                            const server = await serve(world, { components: [{ name: 'VsThing', readme: readme('VsThing', parts, { version, note: !variant, description: 'Does *things* | well.' }) }] });
                            const r = (await reference(server, { type: 'component', id: 'vs-thing' })).reference;
                            const want = Object.fromEntries(names.map((n, i) => [n, states[i] === 1 ? SECTIONS[n][1] : []]));
                            for (const n of names) {
                                const bad = differs(n, r?.api?.[n], want[n]);
                                if (bad) {
                                    return bad;
                                }
                            }
                            return differs('the description', r.summary.description, 'Does *things* | well.') ?? differs('the available version', r.summary.availableVersion, version ?? '2.0.0+') ?? differs('the name', [r.name, r.kebabName], ['VsThing', 'vs-thing']);
                        },
                    });
                }
            }
        }
        return out;
    },

    // one document, laid out in every way markdown allows
    layouts() {
        const out = [];
        for (const [indent, end, pad, rule, before, gap, last] of product(['', '  '], ['\n', '\r\n'], ['', ' ', '    '], ['---', ':---:', '-', '--------:'], ['', 'Some words.', '### Own', 'Some words.\n\n### Own\n\nMore words.'], [0, 1, 2], [true, false])) {
            const row = (cells) => `${indent}|${cells.map((c) => pad + c + pad).join('|')}|`;
            const grid = (head, rows) => [row(head), `${indent}|${head.map(() => pad + rule + pad).join('|')}|`, ...rows.map(row)];
            // rows that name nothing
            const none = (n) => Array.from({ length: gap }, () => Array(n).fill(''));
            const lead = before ? [before, ''] : [];
            const parts = [
                ['## Props', '', ...lead, ...grid(['Prop', 'Type', 'Default', 'Required', 'Description'], [['`one`', '`A \\| B`', '`1`', 'Yes', 'Words `x`'], ...none(5), ['`two`', '`string`', '-', '-', 'W']]), ''],
                ['## Events', '', ...(before.includes('###') ? [] : lead), ...grid(['Event', 'Payload', 'Description'], [['`go`', '`number`', 'Went'], ...none(3), ['`stay`', '', '']]), ''],
                ['## Slots', '', ...grid(['Slot', 'Description'], [...none(2), ['`default`', 'Body'], ['`x`', '']]), ''],
                ['## Methods', '', ...grid(['Method', 'Parameters', 'Description'], [['`run`', '`a: A \\| B`', 'Runs'], ['`rest`', '-', 'Rests']])],
            ];
            const lines = ['# VsThing', '', 'About things.', '', '**Available Version**: 2.3.0+', '', '## Basic Usage', '', '```html', '<vs-thing />', '```', '', ...parts.flat(), ...(last ? ['', '## Caution', '', 'None.', ''] : [])];
            const text = lines.join('\n').split('\n').join(end);
            out.push({
                sample: { indent, end, pad, rule, before, gap, last },
                run: async (world) => {
                    const server = await serve(world, { components: [{ name: 'VsThing', readme: text }] });
                    const r = (await reference(server, { type: 'component', id: 'VsThing', include: ['summary', 'props', 'events', 'slots', 'methods'] })).reference;
                    return (
                        differs('the prop list', r?.props, [{ name: 'one', type: 'A | B', default: '1', required: true, description: 'Words `x`' }, { name: 'two', type: 'string', default: '-', required: false, description: 'W' }]) ??
                        differs('the event list', r.events, [{ name: 'go', payload: 'number', description: 'Went' }, { name: 'stay', payload: '', description: '' }]) ??
                        differs('the slot list', r.slots, [{ name: 'default', description: 'Body' }, { name: 'x', description: '' }]) ??
                        differs('the method list', r.methods, [{ name: 'run', parameters: 'a: A | B', description: 'Runs' }, { name: 'rest', parameters: '-', description: 'Rests' }]) ??
                        differs('the description', [r.summary.description, r.summary.availableVersion], ['About things.', '2.3.0+'])
                    );
                },
            });
        }
        return out;
    },

    interfaces() {
        const out = [];
        const bases = ['', ' extends CSSProperties'];
        const vars = [[], [['tone', 'string']], [['tone', 'string'], ['gap', 'number | string']], [['tone', 'string'], ['border', [['color', 'string'], ['width', 'string']]]], [['border', [['color', 'string'], ['width', 'string']]], ['tone', 'string'], ['focus', [['ring', 'string'], ['gap', 'number']]], ['last', 'number']]];
        const kids = [[], [['$loading', 'VsLoadingStyleSet']], [['wrapper', 'VsInputWrapperStyleSet', true], ['$content', 'CSSProperties']], [['$a', 'VsChipStyleSet'], ['$b', 'VsChipStyleSet'], ['$c', 'VsModalStyleSet']], [['$bar', 'VsThingBarStyleSet'], ['$group', 'VsThingsStyleSet', true], ['$self', 'CSSProperties']]];
        for (const [base, variables, component, children, around] of product(bases, vars, [false, true], kids, [0, 1, 2])) {
            const want = styleInterface({ base, variables, component, children });
            out.push({
                sample: { base, variables, component, children, around },
                run: async (world) => {
                    const other = (n) => `export interface ${n} {\n    variables?: {\n        wrong?: string;\n    };\n}\n`;
                    const types = [around === 1 ? other('VsThingOtherStyleSet') : '', around === 2 ? other('AVsThingStyleSet') : '', want.raw, '', other('VsAfterStyleSet')].join('\n');
                    const server = await serve(world, { components: [{ name: 'VsThing', types }] });
                    const r = (await reference(server, { type: 'component', id: 'VsThing', include: ['styleSet'] })).reference;
                    for (const k of Object.keys(want)) {
                        const bad = differs(`styleSet.${k}`, r?.styleSet?.[k], want[k]);
                        if (bad) {
                            return bad;
                        }
                    }
                    return null;
                },
            });
        }
        out.push({
            sample: 'no types',
            run: async (world) => {
                const server = await serve(world, { components: [{ name: 'VsThing', types: null }] });
                return differs('styleSet', (await reference(server, { type: 'component', id: 'VsThing', include: ['styleSet'] })).reference?.styleSet, { variables: {}, component: false, childRefs: [], raw: '' });
            },
        });
        return out;
    },

    includes(deep) {
        const out = [];
        const component = { name: 'VsButton', props: [{ name: 'size' }], slots: ['default'], events: ['press'], methods: ['focus'], source: '<template>source of the button</template>' };
        for (let bits = 0; bits < 1 << INCLUDES.length; bits++) {
            const include = INCLUDES.filter((_, i) => bits & (1 << i));
            if (!deep && include.length > 3 && include.length < 10) {
                continue;
            }
            out.push({
                sample: include,
                run: async (world) => {
                    const server = await serve(world, { components: [component] });
                    const r = (await reference(server, { type: 'component', id: 'VsButton', ...(include.length ? { include } : {}) })).reference;
                    const asked = include.length ? include : ['summary', 'api', 'rules', 'relationships'];
                    const keys = ['name', 'kebabName', 'versionSupport', ...asked.filter((k) => k !== 'migration')].sort();
                    return (
                        differs('the set of fields', Object.keys(r ?? {}).sort(), keys) ??
                        (asked.includes('api') ? differs('api', Object.keys(r.api).sort(), ['events', 'methods', 'props', 'slots', 'styleSet']) : null) ??
                        (asked.includes('props') ? differs('props', r.props.map((p) => p.name), ['size']) : null) ??
                        (asked.includes('slots') ? differs('slots', r.slots.map((p) => p.name), ['default']) : null) ??
                        (asked.includes('events') ? differs('events', r.events.map((p) => p.name), ['press']) : null) ??
                        (asked.includes('methods') ? differs('methods', r.methods.map((p) => p.name), ['focus']) : null) ??
                        (asked.includes('source') ? differs('source', [r.source.source, r.source.path, r.source.ref], [component.source, 'packages/vlossom/src/components/vs-button/VsButton.vue', 'main']) : null)
                    );
                },
            });
        }
        // an empty list of sections asks for none in particular
        out.push({
            sample: 'empty list',
            run: async (world) => {
                const server = await serve(world, { components: [component] });
                const none = (await reference(server, { type: 'component', id: 'VsButton' })).reference;
                return differs('the reference for an empty list of sections', (await reference(server, { type: 'component', id: 'VsButton', include: [] })).reference, none);
            },
        });
        return out;
    },

    // every component of a larger library, listed and looked up under each spelling
    many(deep) {
        const all = ['VsAlpha', 'VsBetaGamma', 'VsC', 'VsDelta', 'VsEpsilonZeta', 'VsEta', 'VsFileDrop', 'VsGamma', 'VsHue', 'VsInput', 'VsJoin', 'VsKeyPad', 'VsLine', 'VsModal', 'VsNode', 'VsOrder', 'VsPage', 'VsQueue', 'VsRow'];
        const spec = (n) => ({ components: all.slice(0, n).map((name, i) => ({ name, description: `Description of ${name}`, availableVersion: `2.${i}.0+`, props: Array.from({ length: i % 4 }, (_, k) => ({ name: k === 0 && i % 2 ? 'modelValue' : `p${i}x${k}` })), events: i % 3 ? [] : ['update:modelValue'] })) });
        const kebab = (s) => s.replace(/([a-z0-9])([A-Z])/g, '$1-$2').toLowerCase();
        const out = [];
        for (const n of deep ? all.map((_, i) => i + 1) : [1, 2, 7, 8, 9, 16, 17, 19]) {
            for (const order of ['given', 'reversed']) {
                out.push({
                    sample: { n, order },
                    run: async (world) => {
                        const tree = files({ version: '2.5.0', ...spec(n) });
                        const github = new GitHub({ refs: { main: tree }, releases: [] }, order === 'reversed' ? { order: (l) => [...l].reverse() } : {});
                        const server = await world.server({ github });
                        const { result } = await server.request('resources/read', { uri: 'vlossom://components' });
                        const got = JSON.parse(result.contents[0].text).components;
                        const want = spec(n).components.map((c) => ({ name: c.name, kebabName: kebab(c.name), description: c.description, availableVersion: c.availableVersion, propsCount: c.props.length, hasVModel: c.props.some((p) => p.name === 'modelValue') || c.events.length > 0 }));
                        const bad = differs('the component list', got.map(({ name, kebabName, description, availableVersion, propsCount, hasVModel }) => ({ name, kebabName, description, availableVersion, propsCount, hasVModel })), want);
                        if (bad) {
                            return bad;
                        }
                        for (const { name } of want) {
                            const read = JSON.parse((await server.request('resources/read', { uri: `vlossom://components/${name}` })).result.contents[0].text);
                            const wanted = await reference(server, { type: 'component', id: name, include: ['summary', 'api', 'relationships', 'rules'] });
                            const bad2 = differs(`the resource of ${name}`, [read.found, read.id, read.reference], [true, name, written(wanted.reference)]);
                            if (bad2) {
                                return bad2;
                            }
                            for (const value of [name.slice(0, 3), name.toLowerCase().slice(0, 4), name.toUpperCase(), name]) {
                                const { result: done } = await server.request('completion/complete', { ref: { type: 'ref/resource', uri: 'vlossom://components/{name}' }, argument: { name: 'name', value } });
                                const bad3 = differs(`the completion of ${value}`, done?.completion.values, want.map((w) => w.name).filter((w) => w.toLowerCase().startsWith(value.toLowerCase())));
                                if (bad3) {
                                    return bad3;
                                }
                            }
                        }
                        const list = (await server.request('resources/list', {})).result.resources.filter((r) => /components\/Vs/.test(r.uri));
                        return differs('the resource list', list.map((r) => [r.uri, r.name, r.description]), want.map((w) => [`vlossom://components/${w.name}`, w.name, w.description]));
                    },
                });
            }
        }
        for (const [name, listed] of product(all, [false, true])) {
            const camel = name[0].toLowerCase() + name.slice(1);
            for (const id of [name, kebab(name), camel, ` ${name} `]) {
                out.push({
                    sample: { id, listed },
                    run: async (world) => {
                        const server = await serve(world, spec(all.length));
                        if (listed) {
                            await server.request('resources/read', { uri: 'vlossom://components' });
                        }
                        const d = await reference(server, { type: 'component', id });
                        return differs('the component found', [d.found, d.id, d.reference?.name, d.reference?.kebabName, d.reference?.summary?.description], [true, name, name, kebab(name), `Description of ${name}`]);
                    },
                });
            }
        }
        for (const id of ['VsNothing', 'vs-nothing', 'Button', 'vs-', 'VsAlphaBeta', '']) {
            for (const listed of [false, true]) {
                out.push({
                    sample: { id, listed },
                    run: async (world) => {
                        const server = await serve(world, spec(all.length));
                        if (listed) {
                            await server.request('resources/read', { uri: 'vlossom://components' });
                        }
                        const d = await reference(server, { type: 'component', id });
                        return d.found || d.status !== 'error' || d.reference ? `an unknown component is found: ${json(d).slice(0, 200)}` : null;
                    },
                });
            }
        }
        return out;
    },

    // directives, composables, plugins, setup example, options, rules
    others(deep) {
        const out = [];
        const rows = [
            [],
            [['`value`', '`string \\| Component`', '`top`', 'The value']],
            [['`.left`', '`boolean`', '-', ''], ['`content`', '', '', 'Both | ends'.replace('|', '\\|')]],
        ];
        const strip = (c) => c.replace(/\\\|/g, '|').replace(/^`+|`+$/g, '');
        for (const [opts, version, example, id] of product(rows, [undefined, '2.3.0+'], ['<div v-x />', 'line one\n\n  line two\nline three'], ['v-scroll-thing', 'scroll-thing', 'vs-scroll-thing'])) {
            out.push({
                sample: { directive: id, opts, version },
                run: async (world) => {
                    const md = `# v-scroll-thing\n\nScrolls the thing.\n\n${version ? `**Available Version**: ${version}\n\n` : ''}## Basic Usage\n\n\`\`\`html\n${example}\n\`\`\`\n\n### More\n\n\`\`\`html\nother\n\`\`\`\n\n## Options\n\n${table(['Binding', 'Type', 'Default', 'Description'], opts)}\n`;
                    const server = await serve(world, { directives: [{ name: 'other' }, { name: 'scroll-thing', readme: md }] });
                    const d = await reference(server, { type: 'directive', id });
                    const { name, kebabName, description, availableVersion, options, example: e } = d.reference ?? {};
                    return differs('the directive', { name, kebabName, description, availableVersion, options, e }, {
                        name: 'v-scroll-thing', kebabName: 'vs-scroll-thing', description: 'Scrolls the thing.', availableVersion: version ?? '2.0.0+',
                        options: opts.map(([b, t, def, desc]) => ({ binding: strip(b), type: strip(t), default: strip(def), description: desc.replace(/\\\|/g, '|') })), e: example,
                    });
                },
            });
        }
        const args = [[], [['`el`', '`Ref<HTMLElement \\| null>`', '-', 'Yes', 'Target']], [['`a`', '`string`', "`'x'`", 'No', 'A'], ['`b`', '`number`', '', 'Yes', '']]];
        const exportsText = {
            star: "export * from './scroll-lock/scroll-lock-composable';\n",
            named: "export { useScrollLock } from './scroll-lock/scroll-lock-composable';\n",
            broken: "export {\n    useScrollLock,\n} from './scroll-lock/scroll-lock-composable';\n",
            plain: "export * from './scroll-lock/scroll-lock';\n",
            quoted: 'export * from "./scroll-lock/index"\n',
            types: "export type { X } from './scroll-lock/types';\nexport { useScrollLock as useLock } from './scroll-lock/scroll-lock';\n",
            none: "export * from './scroll/scroll-composable';\n",
            empty: '',
        };
        for (const [list, how, returns, id] of product(args, Object.keys(exportsText), ['- `{ lock, unlock }`', 'A ref.', ''], deep ? ['useScrollLock', 'scroll-lock', 'usescrolllock', 'useScroll'] : ['useScrollLock', 'scroll-lock', 'useScroll'])) {
            out.push({
                sample: { composable: id, list, how, returns },
                run: async (world) => {
                    const md = (n) => `# ${n}\n\n**Available Version**: 2.1.0+\n\nAbout ${n}.\n\n## Basic Usage\n\n\`\`\`ts\nconst x = ${n}()\n\`\`\`\n\n## Args\n\n${table(['Arg', 'Type', 'Default', 'Required', 'Description'], list)}\n\n${returns ? `## Returns\n\n${returns}\n` : ''}`;
                    const tree = files({ version: '2.5.0', composables: [{ dir: 'scroll', name: 'useScroll', readme: md('useScroll') }, { dir: 'scroll-lock', name: 'useScrollLock', readme: md('useScrollLock') }] });
                    tree['packages/vlossom/src/composables/index.ts'] = exportsText[how];
                    const server = await serve(world, { raw: tree });
                    const r = (await reference(server, { type: 'composable', id })).reference ?? {};
                    const name = id === 'useScroll' ? 'useScroll' : 'useScrollLock';
                    const { name: gotName, dirName, description, availableVersion, isPublic, args: gotArgs, returns: gotReturns, example } = r;
                    return differs('the composable', { gotName, dirName, description, availableVersion, isPublic, gotArgs, gotReturns, example }, {
                        gotName: name, dirName: name === 'useScroll' ? 'scroll' : 'scroll-lock', description: `About ${name}.`, availableVersion: '2.1.0+',
                        isPublic: name === 'useScroll' ? how === 'none' : ['star', 'named', 'broken', 'plain', 'quoted', 'types'].includes(how),
                        gotArgs: list.map(([n, t, def, req, desc]) => ({ name: strip(n), type: strip(t), default: strip(def), required: req === 'Yes', description: desc })),
                        gotReturns: returns.replace(/^- /, ''), example: `const x = ${name}()`,
                    });
                },
            });
        }
        const methods = [
            [['`open`', '`content: string \\| Component, options?: Options`', 'Opens it'], 'open(content, options?)'],
            [['`clear`', '-', 'Clears'], 'clear()'],
            [['`close`', '', ''], 'close()'],
            [['`emit`', '`event: string, ...args: unknown[]`', 'Emits'], 'emit(event, ...args)'],
        ];
        for (const [a, b, version] of product(methods, methods, [undefined, '2.2.0+'])) {
            out.push({
                sample: { plugin: a[1], then: b[1], version },
                run: async (world) => {
                    const md = (n) => `# ${n} Plugin\n\n> note\n\n${version ? `**Available Version**: ${version}\n\n` : ''}About ${n}.\n\n## Methods\n\n${table(['Method', 'Parameters', 'Description'], [a[0], b[0]])}\n\n## Basic Usage\n\n\`\`\`ts\n$vs.${n}.open()\n\`\`\`\n`;
                    const server = await serve(world, { plugins: [{ name: 'toast', readme: md('toast') }, { name: 'modal', readme: md('modal') }], readme: '# V\n\n## Setup\n\nText.\n\n```ts\nsetup()\n\nmore()\n```\n\n## Other\n\n```ts\nno\n```\n' });
                    const r = (await reference(server, { type: 'option' })).reference;
                    const one = (n) => ({ name: `$vs.${n}`, property: n, description: `About ${n}.`, availableVersion: version ?? '2.0.0+', methods: [a, b].map(([row, name]) => ({ name, description: row[2] })), example: `$vs.${n}.open()` });
                    return differs('the plugins', r?.plugins.map(({ versionSupport, ...p }) => p), [one('modal'), one('toast')]) ?? differs('the setup example', r.fullExample, 'setup()\n\nmore()');
                },
            });
        }
        for (const heading of ['## Installation', null]) {
            out.push({
                sample: { setup: heading },
                run: async (world) => {
                    const server = await serve(world, { readme: `# V\n\n${heading ? `${heading}\n\n\`\`\`ts\nno\n\`\`\`\n` : ''}` });
                    const { fullExample } = (await reference(server, { type: 'option' })).reference;
                    return /createVlossom\(\{ components: VlossomComponents \}\)/.test(fullExample) && !/\bno\b/.test(fullExample) ? null : `the setup example is ${fullExample}`;
                },
            });
        }
        for (const name of ['components', 'colorScheme', 'styleSet', 'theme', 'radiusRatio', 'nope']) {
            out.push({
                sample: { option: name },
                run: async (world) => {
                    const server = await serve(world, { plugins: [{ name: 'toast' }, { name: 'modal' }] });
                    const d = await reference(server, { type: 'option', id: name });
                    if (name === 'nope') {
                        return d.found ? 'an unknown option is found' : null;
                    }
                    const all = (await reference(server, { type: 'option' })).reference;
                    const listed = JSON.parse((await server.request('resources/read', { uri: 'vlossom://options/create-vlossom' })).result.contents[0].text);
                    return (
                        differs('the options', d.reference?.options.map((o) => [o.name, o.required]), [[name, name === 'components']]) ??
                        differs('the options listed', written(all.options), listed) ??
                        differs('the option', written(d.reference.options[0]), listed.find((o) => o.name === name)) ??
                        differs('the plugins and example', [d.reference.plugins, d.reference.fullExample], [all.plugins, all.fullExample]) ??
                        differs('the plugins', all.plugins.map((p) => p.property), ['modal', 'toast'])
                    );
                },
            });
        }
        // lists agree with the single references, and nothing is found by a part of its name
        const pool = ['alpha', 'beta-two', 'beta', 'gamma'];
        for (const n of [0, 1, 2, 3, 4]) {
            out.push({
                sample: { listed: n },
                run: async (world) => {
                    const use = (d) => 'use' + d.split('-').map((w) => w[0].toUpperCase() + w.slice(1)).join('');
                    const server = await serve(world, { directives: pool.slice(0, n).map((name) => ({ name })), composables: pool.slice(0, n).map((dir) => ({ dir, name: use(dir) })) });
                    for (const [type, key, id] of [['directive', 'directives', (d) => `v-${d}`], ['composable', 'composables', use]]) {
                        const listed = (await reference(server, { type })).reference?.[key] ?? [];
                        const bad = differs(`the list of ${key}`, listed.map((l) => l.name).sort(), pool.slice(0, n).map(id).sort());
                        if (bad) {
                            return bad;
                        }
                        for (const l of listed) {
                            const one = await reference(server, { type, id: l.name });
                            const bad2 = differs(`the reference of ${l.name}`, [one.found, one.id, one.reference], [true, l.name, l]);
                            if (bad2) {
                                return bad2;
                            }
                        }
                        for (const d of pool) {
                            for (const part of [id(d).slice(0, -1), id(d).slice(0, 4), d.slice(0, -1), d.slice(1), id(d) + 's']) {
                                const one = await reference(server, { type, id: part });
                                if (one.found || one.reference) {
                                    return `${part} is found as ${one.id}`;
                                }
                            }
                        }
                    }
                    return null;
                },
            });
        }
        out.push({
            sample: 'rules',
            run: async (world) => {
                const server = await serve(world, {});
                const read = async (uri) => JSON.parse((await server.request('resources/read', { uri })).result.contents[0].text);
                const all = await read('vlossom://rules/coding');
                for (const rule of all) {
                    const d = await reference(server, { type: 'rule', id: rule.id });
                    const linked = await read(d.resourceUris?.[0]?.uri);
                    const bad = differs(`the rule ${rule.id}`, [d.found, d.id, written(d.reference?.rule)], [true, rule.id, rule]) ?? ([linked, linked.rule].flat().some((x) => x?.id === rule.id) ? null : `the link of ${rule.id} does not lead to it`);
                    if (bad) {
                        return bad;
                    }
                    for (const part of [rule.id.slice(0, -1), rule.id + '0']) {
                        if (!all.some((o) => o.id === part) && (await reference(server, { type: 'rule', id: part })).found) {
                            return `the rule ${part} is found`;
                        }
                    }
                }
                return all.length && new Set(all.map((x) => x.id)).size === all.length ? null : 'the rules are not listed once each';
            },
        });
        return out;
    },

    tokens(deep) {
        const out = [];
        const NAMES = ['--vs-app-bg', '--vs-app-bg-2', '--vs-radius-md'];
        const states = [{}, { light: 'red' }, { dark: 'var(--vs-x)' }, { light: '1px solid rgba(0, 0, 0, 0.5)', dark: 'blue' }];
        const FILES = ['variables.css', 'palette.css', 'color-scheme-variables.css'];
        for (const [a, b, c, shift, wrapped] of product(states, states, states, deep ? [0, 1, 2] : [0, 1], [true, false])) {
            out.push({
                sample: { a, b, c, shift, wrapped },
                run: async (world) => {
                    const decls = [a, b, c].map((s, i) => ({ name: NAMES[i], ...s }));
                    const styles = {};
                    for (const [i, file] of FILES.entries()) {
                        const here = decls.filter((_, k) => (k * (shift + 1) + shift) % 3 === i);
                        if (here.length || i === 0) {
                            styles[file] = css(here, wrapped);
                        }
                    }
                    const server = await serve(world, { styles });
                    const found = decls.filter((d) => d.light || d.dark).sort((x, y) => (x.name < y.name ? -1 : 1));
                    const want = found.map((d) => ({ name: d.name, defaultValue: d.light ?? '', darkValue: d.dark, category: d.name.includes('radius') ? 'radius' : 'color-scheme' }));
                    const d = await reference(server, { type: 'token' });
                    const shape = (l) => (l ?? []).map(({ name, defaultValue, darkValue, category }) => ({ name, defaultValue, darkValue, category }));
                    const bad = differs('the token list', shape(d.reference?.tokens), want);
                    if (bad) {
                        return bad;
                    }
                    for (const id of [undefined, ...NAMES, 'app-bg', 'radius', 'bg-2', 'md', 'nothing']) {
                        const some = await reference(server, { type: 'token', id });
                        const those = want.filter((w) => w.name.includes(id ?? ''));
                        const bad2 = differs(`the tokens named ${id}`, [some.found, shape(some.reference?.tokens), some.reference?.count ?? 0], [those.length > 0, those, those.length]);
                        if (bad2) {
                            return bad2;
                        }
                    }
                    const { result } = await server.request('resources/read', { uri: 'vlossom://tokens/css' });
                    return differs('the token resource', shape(JSON.parse(result.contents[0].text).tokens), want);
                },
            });
        }
        // a token given more than once: the last of each kind holds
        for (const [first, second, third] of product(...[0, 1, 2].map(() => [...states, { light: 'blue' }, { dark: 'green' }]))) {
            out.push({
                sample: { first, second, third },
                run: async (world) => {
                    const all = [first, second, third];
                    const one = (s) => css([{ name: '--vs-app-bg', ...s }], true);
                    const server = await serve(world, { styles: { 'variables.css': one(first) + one(second), 'palette.css': one(third) } });
                    const d = await reference(server, { type: 'token' });
                    const light = all.filter((s) => s.light).pop()?.light;
                    const dark = all.filter((s) => s.dark).pop()?.dark;
                    return differs('the token list', (d.reference?.tokens ?? []).map((t) => [t.defaultValue, t.darkValue]), light || dark ? [[light ?? '', dark]] : []);
                },
            });
        }
        for (const [name, category] of Object.entries(CATEGORIES)) {
            out.push({
                sample: name,
                run: async (world) => {
                    const server = await serve(world, { styles: { 'variables.css': css([{ name, light: '1' }], true) } });
                    const d = await reference(server, { type: 'token', id: name });
                    return differs('the token', d.reference?.tokens.map((t) => [t.name, t.category]), [[name, category]]);
                },
            });
        }
        return out;
    },

    releases(deep) {
        const out = [];
        const TAGS = [(v) => `vlossom-v${v}`, (v) => `v${v}`];
        const orders = permutations(CORES.slice(0, deep ? 5 : 4));
        for (const [k, order] of orders.entries()) {
            for (const marks of deep ? product([0, 1, 2, 3], [0, 1, 2, 3]) : [[k % 4, (k + 1) % 4]]) {
                out.push({
                    sample: { order, marks },
                    run: async (world) => {
                        // marks: the first is an ordinary release, a prerelease or a draft; likewise the second; a draft may be one of a prerelease
                        const rel = order.map((v, i) => ({ tag_name: TAGS[i % 2](v), name: null, draft: marks[i] >= 2, prerelease: marks[i] === 1 || marks[i] === 3, published_at: `2025-0${i + 1}-02T03:04:05Z`, body: `## New features\n\n- feature of ${v}\n* **second** - more\n\n### 🐛 Bug Fixes\n- fix of ${v}\n\n## Breaking Changes\n- break of ${v}\n\n## Thanks\n- somebody\n` }));
                        const server = await serve(world, {}, rel);
                        const kept = rel.filter((r) => !r.draft).map((r, i) => ({ r, v: order[rel.indexOf(r)], i }));
                        const num = (v) => v.split('.').map(Number);
                        kept.sort((x, y) => { const [p, q] = [num(x.v), num(y.v)]; return q[0] - p[0] || q[1] - p[1] || q[2] - p[2]; });
                        const want = kept.map(({ r, v }) => ({ version: v, date: r.published_at.slice(0, 10), prerelease: r.prerelease, breaking: [`break of ${v}`], features: [`feature of ${v}`, '**second** - more'], fixes: [`fix of ${v}`], notes: r.body.trim() }));
                        const d = await reference(server, { type: 'changelog' });
                        const pick = (l) => l?.map(({ version, date, prerelease, breaking, features, fixes, notes }) => ({ version, date, prerelease, breaking, features, fixes, notes }));
                        const stable = want.find((w) => !w.prerelease)?.version ?? null;
                        const pre = want.find((w) => w.prerelease)?.version ?? null;
                        const bad = differs('the changelog', pick(d.reference?.versions), want) ?? differs('the latest versions', [d.reference.latestStable, d.reference.latestPrerelease, d.reference.currentVersion], [stable, pre, want[0].version]);
                        if (bad) {
                            return bad;
                        }
                        for (const w of want) {
                            const one = await reference(server, { type: 'changelog', id: w.version });
                            const bad2 = differs(`the entry of ${w.version}`, pick(one.reference?.versions), [w]);
                            if (bad2) {
                                return bad2;
                            }
                        }
                        const { result } = await server.request('resources/read', { uri: 'vlossom://changelog' });
                        const read = JSON.parse(result.contents[0].text);
                        return differs('the changelog resource', [pick(read.entries), read.latestStable, read.latestPrerelease, read.currentVersion], [pick(want), stable, pre, want[0].version]);
                    },
                });
            }
        }
        out.push({
            sample: 'long',
            run: async (world) => {
                const rel = Array.from({ length: 13 }, (_, i) => ({ tag_name: `v2.${i}.0`, name: null, draft: false, prerelease: false, published_at: null, body: null }));
                const server = await serve(world, {}, rel);
                const d = await reference(server, { type: 'changelog' });
                const bad = differs('the ten newest releases', d.reference?.versions.map((v) => [v.version, v.date, v.breaking.length + v.features.length + v.fixes.length]), Array.from({ length: 10 }, (_, i) => [`2.${12 - i}.0`, '', 0]));
                const none = await reference(server, { type: 'changelog', id: '9.9.9' });
                return bad ?? (none.found ? 'an unknown release is found' : null);
            },
        });
        return out;
    },

    notes() {
        const out = [];
        const item = (sec) => (sec ? [sec] : []);
        for (const [[first, a], [second, b], level, mark, end, indent] of product(HEADINGS, HEADINGS, ['#', '##', '### ✨'], ['- ', '* ', '-'], ['\n', '\r\n'], ['', '  '])) {
            out.push({
                sample: { first, second, level, mark, crlf: end === '\r\n', indent: !!indent },
                run: async (world) => {
                    const lines = [`${level} ${first}`, '', `${mark}one`, `${mark}two - more`, '', `${level} ${second}`, `${mark}three`, ''];
                    const body = lines.map((l) => (l ? indent + l : l)).join(end);
                    const server = await serve(world, {}, [{ tag_name: 'v2.1.0', name: null, draft: false, prerelease: false, published_at: '2025-01-02T03:04:05Z', body }]);
                    const want = { breaking: [], features: [], fixes: [] };
                    item(a).forEach((sec) => want[sec].push('one', 'two - more'));
                    item(b).forEach((sec) => want[sec].push('three'));
                    const d = await reference(server, { type: 'changelog' });
                    const { breaking, features, fixes } = d.reference?.versions?.[0] ?? {};
                    return differs('the release notes', { breaking, features, fixes }, want);
                },
            });
        }
        // the order of releases whose tags name a stage
        for (const order of permutations(['2.0.0', '2.1.0-beta.1', '2.2.0', '2.10.0-rc.2'])) {
            out.push({
                sample: { order },
                run: async (world) => {
                    const rel = order.map((v) => ({ tag_name: `v${v}`, name: null, draft: false, prerelease: v.includes('-'), published_at: null, body: '' }));
                    const server = await serve(world, {}, rel);
                    const d = await reference(server, { type: 'changelog' });
                    for (const id of [...order, '2', '2.1', '2.1.0', '2.10.0', '2.1.0-beta', '2.2']) {
                        const one = await reference(server, { type: 'changelog', id });
                        const bad = differs(`the entry of ${id}`, (one.reference?.versions ?? []).map((v) => v.version), order.filter((v) => v === id));
                        if (bad) {
                            return bad;
                        }
                    }
                    return differs('the releases', [d.reference?.versions?.map((v) => v.version), d.reference?.latestStable, d.reference?.latestPrerelease], [['2.10.0-rc.2', '2.2.0', '2.1.0-beta.1', '2.0.0'], '2.2.0', '2.10.0-rc.2']);
                },
            });
        }
        return out;
    },
};
