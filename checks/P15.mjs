// Validation reports exactly the misuse that is there.
import { GitHub } from '../lib/mcp-env.mjs';
import { files } from '../lib/mcp-repo.mjs';
import { json, product } from '../lib/kit.mjs';

const COMPONENTS = {
    VsButton: { props: ['size', 'modeName'], required: [], events: ['pressHard', 'click-row', 'update:open'], slots: ['default', 'icon'] },
    VsInput: { props: ['modelValue', 'fieldName', 'size'], required: ['fieldName'], events: ['update:modelValue'], slots: ['label'] },
    VsModal: { props: ['modelValue', 'open'], required: [], events: ['update:open', 'update:modelValue'], slots: ['default', 'header', 'cell-[key]', '[side]-edge'] },
    VsNewThing: { props: ['size'], required: [], events: [], slots: [], since: '2.5.0' },
    VsPair: { props: ['fieldName', 'modeName', 'veryLongName'], required: ['fieldName', 'modeName', 'veryLongName'], events: ['very-long-event'], slots: [] },
    VsUndated: { props: ['size'], required: [], events: [], slots: [], since: null },
    VsBetaThing: { props: ['size'], required: [], events: [], slots: [], since: '2.5.0-beta.2' },
    VsUnclear: { props: ['size'], required: [], events: [], slots: [], since: 'unclear' },
};
const kebab = (s) => s.replace(/([a-z0-9])([A-Z])/g, '$1-$2').toLowerCase();
const camel = (s) => s.replace(/-([a-z])/g, (_, c) => c.toUpperCase());
const pascal = (s) => (s.includes('-') ? s.split('-').map((p) => p[0].toUpperCase() + p.slice(1)).join('') : s);

const STYLES = {
    VsButton: "export interface VsButtonStyleSet {\n    variables?: {\n        tone?: string;\n        width?: string;\n    };\n    component?: CSSProperties;\n    $loading?: VsLoadingStyleSet;\n}\n",
    VsInput: 'export interface VsInputStyleSet extends CSSProperties {\n    $prepend?: CSSProperties;\n    $wrapper?: VsInputWrapperStyleSet;\n}\n',
};

for (const name of ['VsTextarea', 'VsSelect', 'VsTable', 'VsProgress', 'VsAccordion']) {
    COMPONENTS[name] = { props: ['size'], required: [], events: [], slots: [] };
}

const libraries = new Map();
function library(names) {
    const k = names.join();
    if (!libraries.has(k)) {
        libraries.set(k, {
            refs: {
                main: files({
                    version: '2.5.0',
                    components: names.map((name) => ({
                        name,
                        availableVersion: COMPONENTS[name].since === null ? null : `${COMPONENTS[name].since ?? '2.0.0'}+`,
                        props: COMPONENTS[name].props.map((p) => ({ name: p, required: COMPONENTS[name].required.includes(p) })),
                        events: COMPONENTS[name].events,
                        slots: COMPONENTS[name].slots,
                        types: STYLES[name],
                    })),
                }),
            },
            releases: [],
        });
    }
    return libraries.get(k);
}
const ALL = Object.keys(COMPONENTS);
const NAMES = ALL.slice(0, 8);

// attributes as [text, meaning]
const ATTRS = [
    ['size="sm"', { prop: 'size' }],
    [':size="a > b ? 1 : 2"', { prop: 'size' }],
    ['mode-name="x"', { prop: 'modeName' }],
    [':modeName="x"', { prop: 'modeName' }],
    ['nope-prop="1"', { prop: 'nopeProp' }],
    ['flag', { prop: 'flag' }],
    ['title="some words here now"', { prop: 'title' }],
    ["size='one two three'", { prop: 'size' }],
    ['class="a b c"', {}],
    [':class="{ a: b }"', {}],
    [':style="{ a: b }"', {}],
    ['id="x"', {}],
    ['key="1"', {}],
    ['ref="r"', {}],
    ['data-x="1 2 3"', {}],
    ['aria-label="a b c"', {}],
    ['v-if="x > 1"', {}],
    ['v-tooltip="y"', {}],
    ['style="color: red"', { style: true }],
    ['v-model="m"', { model: 'modelValue' }],
    ['v-model:open="m"', { model: 'open' }],
    ['v-model:field-name="m"', { model: 'fieldName' }],
    ['@click="f"', {}],
    ['@press-hard="f"', { event: 'pressHard' }],
    ['@pressHard="() => f(a)"', { event: 'pressHard' }],
    ['@click-row="f"', { event: 'clickRow' }],
    ['@update:model-value="f"', { event: 'update:modelValue' }],
    ['@update:open="f"', { event: 'update:open' }],
    ['@update:nope="f"', { event: 'update:nope' }],
    ['@nope-event="() => f(a > b)"', { event: 'nopeEvent' }],
    [':field-name="x"', { prop: 'fieldName' }],
    ['fieldName="a b c"', { prop: 'fieldName' }],
    ['name="x"', { prop: 'name' }],
    ["style='color: red'", { style: true }],
    ['slot="x"', {}],
    ['very-long-name="x"', { prop: 'veryLongName' }],
    ['@very-long-event="f"', { event: 'veryLongEvent' }],
    ['aria-hidden="true"', {}],
    ['v-bind:field-name="x"', { prop: 'fieldName' }],
    ['v-bind:nope="x"', { prop: 'nope' }],
    ['v-on:nope-event="f"', { event: 'nopeEvent' }],
    ['v-on:press-hard="f"', { event: 'pressHard' }],
    ['@press-hard.once="f"', { event: 'pressHard' }],
    ['@nope-event.once.stop="f"', { event: 'nopeEvent' }],
    ['v-model.trim="m"', { model: 'modelValue' }],
    ['v-model:open.lazy="m"', { model: 'open' }],
];

// ---- the expectation ----
const I = (ruleId, name, line, severity = 'error') => ({ ruleId, name, line, severity });

function tagIssues(tag, attrs, line) {
    const meta = COMPONENTS[pascal(tag)];
    if (!meta) {
        return [];
    }
    const out = [];
    const given = new Set();
    const events = new Set(meta.events.map(camel));
    for (const [, a] of attrs) {
        if (a.model) {
            given.add(a.model);
            if (!meta.props.includes(a.model) || !events.has(`update:${a.model}`)) {
                out.push(I('VMODEL_SUPPORT', a.model, line));
            }
        }
        if (a.prop) {
            given.add(a.prop);
            if (!meta.props.includes(a.prop)) {
                out.push(I('PROP_EXISTS', a.prop, line));
            }
        }
        if (a.event && !events.has(a.event)) {
            out.push(I('EVENT_EXISTS', a.event, line));
        }
    }
    for (const p of meta.required) {
        if (!given.has(p)) {
            out.push(I('PROP_REQUIRED', p, line));
        }
    }
    return out;
}

// items: {tag, attrs, line} | {slot, owner, line} | {native|foreign, line} | {imports:[...], line} | {lib, line} | {css, line}
const NATIVE = { button: ['VsButton'], input: ['VsInput'], textarea: ['VsTextarea'], select: ['VsSelect'], form: ['VsInput', 'VsSelect'], table: ['VsTable'], dialog: ['VsModal'], progress: ['VsProgress'], details: ['VsAccordion'] };
const FOREIGN = ['el-button', 'v-text-field', 'q-btn', 'v-card', 'van-cell', 'a-modal', 'n-data-table', 'p-thing', 'o-thing', 'var-thing', 'iv-thing'];
const LIBRARIES = ['element-plus', 'vuetify', 'ant-design-vue', 'naive-ui', 'quasar', 'primevue', 'bootstrap-vue', '@headlessui/vue', 'radix-vue', '@oruga-ui/oruga-next', 'flowbite-vue-3', 'varlet-ui', 'vant', 'view-ui-plus'];

function expected(items, { mode, version, names }) {
    const out = [];
    const named = new Map();
    const first = mode === 'strict' ? 'error' : 'warning';
    const mention = (name, line) => {
        if (!named.has(name)) {
            named.set(name, line);
        }
    };
    items.filter((i) => i.imports).forEach((i) => i.imports.forEach((n) => mention(n, i.line)));
    items.filter((i) => i.tag).forEach((i) => mention(pascal(i.tag), i.line));
    for (const [name, line] of named) {
        if (!names.includes(name)) {
            out.push(I('COMPONENT_EXISTS', name, undefined));
        } else if (version && COMPONENTS[name].since !== null && COMPONENTS[name].since !== 'unclear' && (COMPONENTS[name].since ?? '2.0.0').split('-')[0] > version) {
            out.push(I('VERSION_UNSUPPORTED', name, line));
        }
    }
    for (const i of items) {
        if (i.tag && names.includes(pascal(i.tag))) {
            out.push(...tagIssues(i.tag, i.attrs, i.line));
        }
        if (i.tag && mode !== 'off') {
            i.attrs.filter(([, a]) => a.style).forEach(() => out.push(I('PREFER_STYLE_SET', i.tag, i.line, first)));
        }
        if (i.slot && i.owner && names.includes(pascal(i.owner)) && !COMPONENTS[pascal(i.owner)].slots.some((s) => new RegExp(`^${s.replace(/\[\w+\]/, '.+')}$`).test(i.slot))) {
            out.push(I('SLOT_EXISTS', i.slot, i.line));
        }
        if (i.css) {
            out.push(I('STYLESET_ONLY', '', i.line));
        }
        if (mode !== 'off') {
            if (i.native && NATIVE[i.native].some((n) => names.includes(n))) {
                out.push(I('PREFER_VLOSSOM_COMPONENT', i.native, i.line, first));
            }
            if (i.foreign) {
                out.push(I('PREFER_VLOSSOM_COMPONENT', i.foreign, i.line, first));
            }
            if (i.lib) {
                out.push(I('PREFER_VLOSSOM_COMPONENT', i.lib, i.line, first));
            }
        }
    }
    return out;
}

function compare(data, want) {
    const rest = [...data.issues];
    for (const w of want) {
        const k = rest.findIndex((g) => g.ruleId === w.ruleId && g.severity === w.severity && (w.line === undefined || g.line === w.line) && g.message.includes(w.name));
        if (k < 0) {
            return `${w.severity} ${w.ruleId} ${w.name}${w.line ? ` on line ${w.line}` : ''} is not reported; reported: ${json(data.issues.map((g) => [g.ruleId, g.severity, g.line, g.message]))}`;
        }
        rest.splice(k, 1);
    }
    if (rest.length) {
        return `reported without cause: ${json(rest.map((g) => [g.ruleId, g.severity, g.line, g.message]))}`;
    }
    const errors = want.filter((w) => w.severity === 'error').length;
    const warnings = want.length - errors;
    if (data.valid !== (errors === 0) || data.status !== (errors ? 'error' : 'ok')) {
        return `with ${errors} errors the code is ${data.valid ? 'valid' : 'not valid'} (${data.status})`;
    }
    const numbers = (data.summary.match(/(\d+) error/)?.[1] ?? '0') + '/' + (data.summary.match(/(\d+) warning/)?.[1] ?? '0');
    if (numbers !== `${errors}/${warnings}`) {
        return `the summary says "${data.summary}" for ${errors} errors and ${warnings} warnings`;
    }
    return null;
}

// ---- documents ----
class Doc {
    constructor() {
        this.lines = [];
        this.items = [];
    }
    at() {
        return this.lines.length + 1;
    }
    add(text, item) {
        if (item) {
            this.items.push({ ...item, line: this.at() });
        }
        this.lines.push(text);
        return this;
    }
    // opening tag, attributes on one line or one per line
    open(tag, attrs = [], { spread = false, end = '>' } = {}) {
        this.items.push({ tag, attrs, line: this.at() });
        if (spread) {
            this.lines.push(`<${tag}`, ...attrs.map(([t]) => `  ${t}`), end);
        } else {
            this.lines.push(`<${tag}${attrs.map(([t]) => ` ${t}`).join('')}${end === '/>' ? ' />' : end}`);
        }
        return this;
    }
    close(tag) {
        this.lines.push(`</${tag}>`);
        return this;
    }
    get code() {
        return this.lines.join('\n');
    }
}

export default {
    id: 'P15',
    world: 'mcp',
    method: 'every document of a bounded grammar of templates, scripts, StyleSets and project files is validated by the real server over a simulated GitHub; the reported issues are compared with those computed from the structure the document was written from',
    assumptions: ['attribute values are quoted', 'StyleSet keys are written one per line', 'commented-out code is not part of the documents'],
    scenarios(tier) {
        const deep = tier === 'thorough';
        return ['tags', 'slots', 'documents', 'vlossomFirst', 'styleSets', 'projects'].map((name) => ({ name, enumerate: true, deep }));
    },

    enumerator(world, scenario) {
        const cases = this[scenario.name](scenario.deep);
        return {
            total: cases.length,
            evaluate: async (i) => {
                const { sample, args, want, names = NAMES, check } = cases[i];
                const server = await world.server({ github: new GitHub(library(names)) });
                const { data } = await server.call('validate_vlossom_usage', args);
                const violation = !data ? 'no answer' : check ? check(data) : compare(data, want);
                return { state: `${scenario.name}${i}`, sample, outcome: (data?.issues ?? []).map((x) => x.ruleId).sort().join(), transitions: 1, violation: violation && `${scenario.name}: ${violation} in\n${args.code ?? json(args)}` };
            },
        };
    },

    // one element, every pair of attributes
    tags(deep) {
        const out = [];
        const sets = [[], ...ATTRS.map((a) => [a])];
        for (let i = 0; i < ATTRS.length; i++) {
            for (let j = 0; j < ATTRS.length; j++) {
                if (i !== j && (deep || i < j)) {
                    sets.push([ATTRS[i], ATTRS[j]]);
                }
            }
        }
        if (deep) {
            for (let i = 0; i < ATTRS.length; i += 2) {
                for (let j = i + 1; j < ATTRS.length; j += 2) {
                    for (let k = j + 1; k < ATTRS.length; k++) {
                        sets.push([ATTRS[i], ATTRS[j], ATTRS[k]]);
                    }
                }
            }
        }
        for (const [tag, attrs, spread, end] of product(['vs-button', 'VsButton', 'vs-input', 'VsModal', 'vs-pair', 'vs-buttons'], sets, [false, true], ['>', '/>'])) {
            if (!deep && spread !== (end === '/>')) {
                continue;
            }
            if (attrs.filter(([, a]) => a.prop || a.model).some(([, a], k, l) => l.findIndex(([, b]) => (b.prop ?? b.model) === (a.prop ?? a.model)) !== k)) {
                continue; // the same prop twice
            }
            if (attrs.filter(([, a]) => a.style).length > 1) {
                continue; // the style twice
            }
            const doc = new Doc().add('<template>').add('  <div>').open(tag, attrs, { spread, end });
            if (end === '>') {
                doc.add('text').close(tag);
            }
            doc.add('</div>').add('</template>');
            out.push({ sample: doc.code, args: { kind: 'sfc', code: doc.code }, want: expected(doc.items, { mode: 'strict', names: NAMES }) });
        }
        for (const [text, a] of [['flag', { prop: 'flag' }], ['size', { prop: 'size' }], ['size="sm"', { prop: 'size' }], ['nope="1"', { prop: 'nope' }]]) {
            const doc = new Doc().add(`<vs-button ${text}/>`, { tag: 'vs-button', attrs: [[text, a]] });
            out.push({ sample: doc.code, args: { kind: 'snippet', code: doc.code }, want: expected(doc.items, { mode: 'strict', names: NAMES }) });
        }
        return out;
    },

    slots(deep) {
        const out = [];
        const SLOTS = ['default', 'header', 'label', 'icon', 'nope-slot'];
        for (const [outer, inner, before, within, after, spread, closed] of product(['VsModal', 'vs-button', 'vs-nope'], ['vs-input', 'VsModal', 'vs-button'], ['', ...SLOTS], ['', ...SLOTS], ['', ...(deep ? SLOTS : ['header', 'nope-slot'])], [false, true], [false, true])) {
            if (closed && within) {
                continue;
            }
            const attrs = inner === 'vs-input' ? [[':field-name="a > b"', { prop: 'fieldName' }]] : [];
            const doc = new Doc().add('<template>').open(outer, [[':key="a => b"', {}]], { spread });
            const slot = (name, owner) => name && doc.add(`  <template #${name}${name === 'header' ? '="{ item }"' : ''}>`, { slot: name, owner }).add('x').add('  </template>');
            slot(before, outer);
            doc.add('<p>');
            doc.open(inner, attrs, { spread, end: closed ? '/>' : '>' });
            if (!closed) {
                slot(within, inner);
                doc.close(inner);
            }
            doc.add('</p>');
            slot(after, outer);
            doc.close(outer).add('</template>');
            out.push({ sample: doc.code, args: { kind: 'snippet', code: doc.code }, want: expected(doc.items, { mode: 'strict', names: NAMES }) });
        }
        // the ways of writing a slot, and names that stand for many
        const FORMS = [(n) => `#${n}`, (n) => `v-slot:${n}`, (n) => `v-if="a > b" #${n}`, (n) => `#${n}="{ item }" v-for="x in ' #nope'"`, (n) => `:key="1" v-slot:${n}="{ item }"`];
        const MANY = [...SLOTS, 'cell-name', 'cell-', 'cells', 'cell', 'left-edge', '-edge', 'edge', 'left-edges'];
        for (const [form, other, slot, owner] of product(FORMS, FORMS, MANY, ['vs-modal', 'VsButton'])) {
            const doc = new Doc().add('<template>').open(owner);
            doc.add(`<template ${form(slot)}>`, { slot, owner }).add('x').add('</template>');
            doc.add(`<template ${other('nope-too')}>`, { slot: 'nope-too', owner }).add('x').add('</template>');
            doc.close(owner).add('</template>');
            out.push({ sample: doc.code, args: { kind: 'snippet', code: doc.code }, want: expected(doc.items, { mode: 'strict', names: NAMES }) });
        }
        return out;
    },

    // whole files: several elements, imports, style block, version
    documents(deep) {
        const out = [];
        const elements = [
            (d) => d.open('vs-button', [ATTRS[0]]).close('vs-button'),
            (d) => d.open('VsButton', [ATTRS[4]], { spread: true, end: '/>' }),
            (d) => d.open('vs-input', [], { end: '/>' }),
            (d) => d.open('vs-new-thing', [], { end: '/>' }),
            (d) => d.open('vs-nope', [ATTRS[4]], { end: '/>' }),
            (d) => d.open('VsBetaThing', [], { end: '/>' }),
            (d) => d.open('VsUndated', [], { end: '/>' }),
            (d) => d.open('VsUnclear', [], { end: '/>' }),
            (d) => d.open('vs-button', [ATTRS[18]], { end: '/>' }),
            (d) => d.add('<button type="submit">x</button>', { native: 'button' }),
        ];
        const scripts = [
            () => {},
            (d) => d.add('<script setup>').add("import { VsButton } from 'vlossom'", { imports: ['VsButton'] }).add('</script>'),
            (d) => d.add('<script setup>').add("import{VsGhost as VsInput, VsNewThing, VsGhostTwo2, useVlossom}from\"vlossom\"", { imports: ['VsGhost', 'VsNewThing', 'VsGhostTwo2'] }).add('</script>'),
            (d) => d.add('<script setup>').add("import { VsNope } from './own'").add("import { ref } from 'vue'").add('</script>'),
            (d) => d.add('<script setup>').add('import {', { imports: ['VsInput', 'VsNope'] }).add('  VsInput,').add('  VsNope,').add("} from 'vlossom'").add('</script>'),
        ];
        const styles = [() => {}, (d) => d.add('<style scoped>', { css: true }).add('.mine .vs-button { color: red; }').add('</style>'), (d) => d.add('<style>').add('.mine { color: var(--vs-red-100); }').add('</style>')];
        for (const [a, b, script, style, before, version] of product(elements, elements, scripts, styles, [true, false], deep ? [undefined, '2.4.0', '2.5.0'] : [undefined, '2.4.0'])) {
            const doc = new Doc();
            if (before) {
                script(doc);
            }
            doc.add('<template>').add('<div>');
            a(doc);
            b(doc);
            doc.add('</div>').add('</template>');
            if (!before) {
                script(doc);
            }
            style(doc);
            out.push({ sample: doc.code, args: { kind: 'sfc', code: doc.code, ...(version ? { context: { version } } : {}) }, want: expected(doc.items, { mode: 'strict', names: NAMES, version }) });
        }
        for (const code of [undefined, '', '   \n ']) {
            for (const kind of ['sfc', 'snippet', 'style-set']) {
                out.push({ sample: { kind, code }, args: { kind, ...(code === undefined ? {} : { code }) }, check: (d) => (d.status === 'skipped' && d.valid === false && d.issues.length === 0 ? null : `empty code is ${d.status}, valid ${d.valid}`) });
            }
        }
        return out;
    },

    // what counts as avoidable, by mode and by what the version covers
    vlossomFirst(deep) {
        const out = [];
        const pieces = [
            ...Object.keys(NATIVE).map((t) => (d) => d.add(`<${t} class="x"></${t}>`, { native: t })),
            ...FOREIGN.map((t) => (d) => d.add(`<${t}>x</${t}>`, { foreign: t })),
            (d) => d.add('<input/>', { native: 'input' }),
            (d) => d.add('<button>x</button>', { native: 'button' }),
            (d) => d.add("<vs-button style='a: b' />", { tag: 'vs-button', attrs: [['', { style: true }]] }),
            (d) => d.add('<div><span>x</span></div>'),
            (d) => d.add('<buttons />'),
            (d) => d.add('<vs-button v-model:x-y.trim="a" />'.replace(' v-model:x-y.trim="a"', ''), { tag: 'vs-button', attrs: [] }),
            (d) => d.add("import { x } from 'vuetify'", { lib: 'vuetify' }),
            (d) => d.add('import y from "element-plus/es/button"', { lib: 'element-plus/es/button' }),
            (d) => d.add("import z from 'vuetify-extra'"),
            (d) => d.add("import w from '@headlessui/vue'", { lib: '@headlessui/vue' }),
            (d) => d.add('<vs-button style="a: b" />', { tag: 'vs-button', attrs: [['', { style: true }]] }),
        ];
        const singles = [
            ...LIBRARIES.map((l) => (d) => d.add(`import x from '${l}'`, { lib: l })),
            ...LIBRARIES.map((l) => (d) => d.add(`export { x } from "${l}/part"`, { lib: `${l}/part` })),
            ...LIBRARIES.map((l) => (d) => d.add('import {').add('  x,').add(`} from '${l}'`, { lib: l })),
            ...Object.keys(NATIVE).flatMap((t) => [`<${t}>`, `<${t}/>`, `<${t}\ta="b">`, `< ${t}>`, `<${t.toUpperCase()}>`].map((text) => (d) => d.add(text, { native: t }))),
            ...FOREIGN.map((t) => (d) => d.add(`<p><${t}><${t} /></${t}></p>`, { foreign: t }).items.push({ foreign: t, line: d.at() - 1 })),
            (d) => d.add('<vs-button class="a" :size="b > c" style="x: y" />', { tag: 'vs-button', attrs: [['', { style: true }]] }),
        ];
        const worlds = deep ? [ALL, NAMES, ['VsButton'], ['VsInput', 'VsModal'], ['VsInput']] : [ALL, ['VsInput']];
        for (const [a, b, mode, names, kind] of [...product(pieces, pieces, ['strict', 'prefer', 'off', undefined], worlds, deep ? ['sfc', 'snippet'] : ['sfc']), ...product(singles, pieces.slice(0, 2), ['strict', 'prefer', 'off'], [ALL, NAMES, ['VsInput'], ['VsSelect']], ['sfc'])]) {
            const doc = new Doc().add('<!-- top -->');
            a(doc);
            doc.add('');
            b(doc);
            out.push({ sample: { code: doc.code, mode, names }, names, args: { kind, code: doc.code, ...(mode ? { context: { vlossomFirst: mode } } : {}) }, want: expected(doc.items, { mode: mode ?? 'strict', names }) });
        }
        return out;
    },

    styleSets(deep) {
        const out = [];
        // [line, rule or null] for a StyleSet of VsButton, then of VsInput
        const TOP = {
            VsButton: [
                ["  component: {", null, '    padding: "1rem",', '  },'],
                ['  $loading: {', null, '    color: "red",', '  },'],
                ['  loadingStyleSet: {', ['STYLESET_INTERFACE_KEY', 'STYLESET_CHILD_REF'], '  },'],
                ['  padding: "1rem",', ['STYLESET_INTERFACE_KEY']],
                ['  "$loading": {', null, '    content: "}}",', "    quotes: '}',", '    other: `}`,', '  },'],
                ["  'nope': 1,", ['STYLESET_INTERFACE_KEY']],
            ],
            VsInput: [
                ['  $prepend: {', null, '    color: "red",', '  },'],
                ['  $wrapper: {', null, '    $label: {},', '  },'],
                ['  padding: "1rem",', null],
                ['  $nope: {', ['STYLESET_INTERFACE_KEY'], '  },'],
                ['  component: {', ['STYLESET_INTERFACE_KEY'], '  },'],
            ],
        };
        const VARS = [
            ['    tone: "var(--vs-red-100)",', null],
            ['    width: "1px",', null],
            ['    nope: 1,', 'STYLESET_VARIABLE_KEY'],
            ['    padding: 1,', 'STYLESET_COMPONENT_PROPERTY_IN_VARIABLES'],
        ];
        const VALUES = [
            ['', []],
            ['  // "#ff0000"', [['STYLESET_TOKEN', 'warning', '']]],
            ['  // "#FFA" #0aB9Cd80 #ABCDEF', [['STYLESET_TOKEN', 'warning', ''], ['STYLESET_TOKEN', 'warning', ''], ['STYLESET_TOKEN', 'warning', '']]],
            ['  // rgb(0, 0, 0) hsl(1, 2%, 3%)', [['STYLESET_TOKEN', 'warning', ''], ['STYLESET_TOKEN', 'warning', '']]],
            ['  // var(--my-color)', [['STYLESET_CSS_VARIABLE_NAME', 'error', '--my-color']]],
            ['  // var(--vs-comp-bg)', []],
            ['  // var(--vsx-bg)', [['STYLESET_CSS_VARIABLE_NAME', 'error', '--vsx-bg']]],
        ];
        const subsets = (n) => Array.from({ length: 1 << n }, (_, b) => Array.from({ length: n }, (_, i) => i).filter((i) => b & (1 << i)));
        for (const comp of ['VsButton', 'VsInput']) {
            for (const [tops, vars, value, naming] of product(subsets(TOP[comp].length), comp === 'VsButton' ? [...subsets(4).slice(1), null] : [null, [0]], VALUES, deep ? ['typed', 'context', 'kebab', 'split', 'long', 'returned', 'second'] : ['typed', 'context', 'split', 'long', 'returned', 'second'])) {
                if (!deep && !['typed', 'context'].includes(naming) && value !== VALUES[0]) {
                    continue;
                }
                if (!deep && tops.length > 2 && value !== VALUES[0]) {
                    continue;
                }
                const lines = [];
                const want = [];
                // the annotation may stand on a line of its own, and other braces before it
                lines.push('// a look', ...(naming === 'typed' ? [`const look: ${comp}StyleSet = {`] : naming === 'long' ? ['const other = { nope: { a: 1 } };', `const look: Partial<${comp}StyleSet> & Record<string, unknown> = {`] : naming === 'returned' ? ['function look(a: { nope: string }) {', '  return {'] : naming === 'split' ? ['const other = { nope: { a: 1 } };', `const look: ${comp}StyleSet`, '  = {'] : ['const look = {']));
                if (vars) {
                    if (comp === 'VsInput') {
                        want.push(I('STYLESET_INTERFACE_KEY', 'variables', lines.length + 1));
                    }
                    lines.push('  variables: {');
                    if (comp === 'VsInput') {
                        want.push(I('STYLESET_VARIABLES_UNSUPPORTED', '', lines.length + 1), I('STYLESET_VARIABLE_KEY', 'tone', lines.length + 1));
                        lines.push(VARS[0][0]);
                    } else {
                        for (const v of vars) {
                            if (VARS[v][1]) {
                                want.push(I(VARS[v][1], VARS[v][0].trim().split(':')[0], lines.length + 1));
                            }
                            lines.push(VARS[v][0]);
                        }
                    }
                    lines.push('  },');
                }
                for (const t of tops) {
                    const [first, rules, ...rest] = TOP[comp][t];
                    const name = first.trim().split(':')[0].replace(/['"]/g, '');
                    (rules ?? []).forEach((r) => want.push(I(r, name, lines.length + 1)));
                    lines.push(first, ...rest);
                }
                value[1].forEach(([r, severity, name]) => want.push(I(r, name, lines.length + 1, severity)));
                lines.push(value[0], '}');
                out.push({ sample: lines.join('\n'), args: { kind: 'style-set', code: lines.join('\n'), ...(['typed', 'split', 'long'].includes(naming) ? {} : naming === 'second' ? { context: { components: ['VsNope', comp] } } : { context: { components: [naming === 'kebab' ? kebab(comp) : comp] } }) }, want });
            }
        }
        // many variables, declared and not
        for (const [known, unknown] of product([0, 1, 2], [0, 1, 4, 5, 6, 7, 8, 9, 10])) {
            const names = [...['tone', 'width'].slice(0, known), ...Array.from({ length: unknown }, (_, i) => 'more' + i)];
            const lines = ['const look: VsButtonStyleSet = {', '  variables: {', ...names.map((n) => `    ${n}: 1,`), '  },', '}'];
            const want = names.map((n, i) => (n.startsWith('more') ? I('STYLESET_VARIABLE_KEY', n, i + 3) : null)).filter(Boolean);
            names.length > 8 && want.push(I('STYLESET_VARIABLES_OVEREXPOSED', '', 3, 'warning'));
            out.push({ sample: lines.join('\n'), args: { kind: 'style-set', code: lines.join('\n') }, want });
        }
        for (const name of ['alignItems', 'background', 'backgroundColor', 'borderRadius', 'display', 'flex', 'height', 'justifyContent', 'margin', 'maxHeight', 'maxWidth', 'minHeight', 'minWidth', 'opacity', 'padding', 'position', 'zIndex']) {
            const lines = ['const look: VsButtonStyleSet = {', '  variables: {', `    ${name}: 1,`, '  },', '}'];
            out.push({ sample: lines.join('\n'), args: { kind: 'style-set', code: lines.join('\n') }, want: [I('STYLESET_COMPONENT_PROPERTY_IN_VARIABLES', name, 3)] });
        }
        // quoted keys and colours written with a gap
        for (const [quote, [name, rule]] of product(["'", '"'], [['$nope', 'STYLESET_INTERFACE_KEY'], ['$loading', null]])) {
            const lines = ['const look: VsButtonStyleSet = {', `  ${quote}${name}${quote}: {`, '  },', '}'];
            out.push({ sample: lines.join('\n'), args: { kind: 'style-set', code: lines.join('\n') }, want: rule ? [I(rule, name, 2)] : [] });
        }
        for (const text of ['rgb (0, 0, 0)', 'hsl (1, 2%, 3%)', '#abc', '#aabbccdd']) {
            const lines = ['const look: VsButtonStyleSet = {', `  // ${text}`, '}'];
            out.push({ sample: lines.join('\n'), args: { kind: 'style-set', code: lines.join('\n') }, want: [I('STYLESET_TOKEN', '', 2, 'warning')] });
        }
        // variables within variables
        for (const before of [[], ['    tone: 1,'], ['    tone: {', '      a: 1,', '    },']]) {
            const lines = ['const look: VsButtonStyleSet = {', '  variables: {', ...before, '    variables: {', '    },', '  },', '}'];
            out.push({ sample: lines.join('\n'), args: { kind: 'style-set', code: lines.join('\n') }, want: [I('STYLESET_SHAPE', ''), I('STYLESET_VARIABLE_KEY', 'variables', 3 + before.length)] });
        }
        out.push({ sample: 'no component', args: { kind: 'style-set', code: 'const x = {\n  a: 1,\n}' }, want: [I('STYLESET_COMPONENT_CONTEXT', '')] });
        out.push({ sample: 'unknown component', args: { kind: 'style-set', code: 'const x: VsNopeStyleSet = {\n  a: 1,\n}' }, want: [I('COMPONENT_EXISTS', 'VsNope')] });
        out.push({ sample: 'style block', args: { kind: 'style-set', code: '<style scoped>\n</style>', context: { components: ['VsButton'] } }, want: [I('STYLESET_ONLY', '')] });
        for (const version of ['2.4.9', '2.5.0', undefined]) {
            out.push({ sample: { version, undated: true }, args: { kind: 'style-set', code: 'const x: VsUndatedStyleSet = {\n}', ...(version ? { context: { version } } : {}) }, want: [] });
            out.push({ sample: { version }, args: { kind: 'style-set', code: 'const x: VsNewThingStyleSet = {\n}', ...(version ? { context: { version } } : {}) }, want: version !== '2.4.9' ? [] : [I('VERSION_UNSUPPORTED', 'VsNewThing')] });
        }
        return out;
    },

    projects(deep) {
        const out = [];
        const bits = (n) => product(...Array(n).fill([true, false]));
        const pkg = (vlossom, vue, tailwind, dev, third) => {
            const deps = { ...(vlossom ? { vlossom: '^2.0.0' } : {}), ...(third ? { [third]: '1.0.0' } : {}) };
            const rest = { ...(vue ? { vue: '^3.4.0' } : {}), ...(tailwind ? { tailwindcss: '^4.0.0' } : {}) };
            return JSON.stringify(dev ? { dependencies: deps, devDependencies: rest } : { dependencies: { ...deps, ...rest } });
        };
        const main = (create, comps, option, style) => [create ? "import { createVlossom } from 'vlossom'" : '', comps ? "import { VlossomComponents } from 'vlossom'" : '', style === 2 ? 'import "vlossom/styles"' : style ? "import 'vlossom/styles'" : '', option === 2 ? 'app.use(x({ components : y }))' : option ? 'app.use(x({ components: y }))' : ''].join('\n');
        const wantPkg = (vlossom, vue, tailwind) => [...(vlossom ? [] : [I('PROJECT_SETUP', 'include vlossom')]), ...(vue ? [] : [I('PROJECT_SETUP', 'include Vue')]), ...(tailwind ? [] : [I('PROJECT_SETUP', 'include tailwindcss')])];
        const wantMain = (create, comps, option, style) => [...(create ? [] : [I('PROJECT_SETUP', 'createVlossom().')]), ...(comps ? [] : [I('PROJECT_SETUP', 'VlossomComponents')]), ...(option ? [] : [I('PROJECT_SETUP', 'required components option')]), ...(style ? [] : [I('PROJECT_SETUP', 'styles')])];
        for (const [[vlossom, vue, tailwind, dev], third, mode] of product(bits(4), [null, ...LIBRARIES.slice(0, 7), 'lodash'], ['strict', 'prefer', 'off', undefined])) {
            const strict = (mode ?? 'strict') === 'strict';
            const foreign = third && third !== 'lodash';
            const want = [...wantPkg(vlossom, vue, tailwind), ...(foreign && strict ? [I('PREFER_VLOSSOM_COMPONENT', third)] : [])];
            const args = { kind: 'project-setup', packageJson: pkg(vlossom, vue, tailwind, dev, third), ...(mode ? { context: { vlossomFirst: mode } } : {}) };
            out.push({
                sample: args,
                args,
                check: (d) => compare(d, want) ?? ((d.recommendations ?? []).some((r) => r.includes(`${third}`)) !== Boolean(foreign && mode === 'prefer') ? `the recommendations are ${json(d.recommendations)}` : null),
            });
        }
        const whole = pkg(true, true, true, false, null);
        for (const [flags, path] of product(bits(4), ['src/main.ts', 'main.js', 'vlossom.js', 'src/vlossom.ts', 'plugins/vlossom.ts', 'src/plugins/vlossom.js', 'src\\main.ts', 'src/App.vue', 'src/domain.ts'])) {
            const isSetup = !['src/App.vue', 'src/domain.ts'].includes(path);
            out.push({ sample: { path, flags }, args: { kind: 'project-setup', packageJson: whole, files: [{ path: 'index.html', content: '' }, { path, content: main(...flags) }] }, want: isSetup ? wantMain(...flags) : [I('PROJECT_SETUP', 'No Vlossom setup file')] });
        }
        out.push({ sample: 'other notation', args: { kind: 'project-setup', packageJson: whole, files: [{ path: 'src/main.ts', content: main(true, true, 2, 2) }] }, want: [] });
        out.push({ sample: 'only files', args: { kind: 'project-setup', files: [{ path: 'src/main.ts', content: main(true, false, true, true) }] }, want: wantMain(true, false, true, true) });
        // files are read for avoidable elements as well
        for (const [mode, content, item] of product(['strict', 'prefer', 'off'], ['<template>\n<button />\n</template>', "import x from 'vuetify'", '<vs-button />'], [0])) {
            const names = content.includes('<button') ? 'button' : content.includes('vuetify') ? 'vuetify' : null;
            const line = names === 'button' ? 2 : 1;
            const want = names && mode !== 'off' ? [I('PREFER_VLOSSOM_COMPONENT', names, line, mode === 'strict' ? 'error' : 'warning')] : [];
            out.push({
                sample: { mode, content },
                args: { kind: 'project-setup', packageJson: whole, files: [{ path: 'src/main.ts', content: main(true, true, true, true) }, { path: 'src/App.vue', content }], context: { vlossomFirst: mode } },
                check: (d) => compare(d, want) ?? (d.issues.every((i) => i.message.includes('src/App.vue')) ? null : `an issue does not say which file it is in: ${json(d.issues)}`),
            });
        }
        out.push({ sample: 'package without files', args: { kind: 'project-setup', packageJson: whole, files: [] }, want: [I('PROJECT_SETUP', 'No Vlossom setup file')] });
        out.push({ sample: 'bad package', args: { kind: 'project-setup', packageJson: '{' }, want: [I('PROJECT_SETUP', 'could not be parsed')] });
        out.push({ sample: 'nothing', args: { kind: 'project-setup' }, check: (d) => (d.status === 'skipped' && d.valid === false ? null : `nothing to check is ${d.status}, valid ${d.valid}`) });
        out.push({ sample: 'no files', args: { kind: 'project-setup', files: [] }, check: (d) => (d.status === 'skipped' && d.valid === false ? null : `nothing to check is ${d.status}, valid ${d.valid}`) });
        return out;
    },
};
