// Scaffolded code uses what was asked for, passes validation, and is refused otherwise.
import { GitHub } from '../lib/mcp-env.mjs';
import { files, kebab } from '../lib/mcp-repo.mjs';
import { json, product, sequences } from '../lib/kit.mjs';

const MODEL = { props: [{ name: 'modelValue' }], events: ['update:modelValue'] };
const SHAPES = {
    VsPlain: {},
    VsSlotted: { slots: ['default', 'header'] },
    VsNamedSlot: { slots: ['header', 'default-extra'] },
    VsGiven: { props: [{ name: 'modelValue' }] },
    VsGivenRequired: { props: [{ name: 'modelValue', required: true }] },
    VsReporting: { events: ['update:modelValue', 'open'] },
    VsBound: MODEL,
    VsBoundRequired: { props: [{ name: 'modelValue', required: true }, { name: 'itemKey', required: true }, { name: 'other' }], events: ['update:modelValue', 'select'], slots: ['default'] },
    VsNeedy: { props: [{ name: 'first', required: true }, { name: 'fileDropName', required: true }] },
    VsOpen: { props: [{ name: 'open' }], events: ['update:open'], slots: ['default'] },
    VsLater: { availableVersion: '2.4.0+' },
    VsLatest: { ...MODEL, availableVersion: '2.5.0+' },
};
const camelToKebab = (s) => s.replace(/([A-Z])/g, '-$1').toLowerCase();
const since = (n) => (SHAPES[n].availableVersion ?? '2.0.0+').slice(0, -1);

let main;
const shapes = () => (main ??= { refs: { main: files({ version: '2.5.0', components: Object.entries(SHAPES).map(([name, s]) => ({ name, ...s })) }) }, releases: [] });

const VERSIONS = [
    [{ version: '2.5.0' }, '2.5.0'],
    [{ version: '2.3.0' }, '2.3.0'],
    [{ packageJson: JSON.stringify({ dependencies: { vlossom: '^2.4.0' } }) }, '2.4.0'],
];
const BLANK = [undefined, {}, { packageJson: '' }, { packageJson: ' \n ' }, { typescript: true }]; // no package file at all
const NONE = [undefined, {}, { packageJson: '{}' }, { packageJson: JSON.stringify({ dependencies: { vue: '1' } }) }, { typescript: true }];

// structure of a scaffolded component file, read back from the text
function readBack(code) {
    const template = /<template>([\s\S]*)<\/template>/.exec(code)?.[1] ?? '';
    const comment = /<!-- ([\s\S]*?) -->/.exec(template)?.[1];
    const tags = [...template.matchAll(/<(vs-[a-z-]+)((?:\s+[^\s=>]+="[^"]*")*)\s*(\/>|>([\s\S]*?)<\/\1>)/g)].map((m) => ({
        tag: m[1],
        attrs: [...m[2].matchAll(/([^\s=]+)="([^"]*)"/g)].map((a) => `${a[1]}=${a[2]}`),
        content: m[3] !== '/>',
    }));
    const script = /<script setup( lang="ts")?>([\s\S]*)<\/script>/.exec(code);
    const imports = Object.fromEntries([...(script?.[2] ?? '').matchAll(/import \{ ([^}]*) \} from '([^']+)'/g)].map((m) => [m[2], m[1].split(', ')]));
    return { comment, tags, ts: Boolean(script?.[1]), imports, declares: /const modelValue = ref\(/.test(script?.[2] ?? ''), script: Boolean(script) };
}

function want(names, context, description) {
    const bound = (n) => (SHAPES[n].props ?? []).some((p) => p.name === 'modelValue') && (SHAPES[n].events ?? []).includes('update:modelValue');
    return {
        tags: names.map((n) => ({
            tag: kebab(n),
            attrs: [...(bound(n) ? ['v-model=modelValue'] : []), ...(SHAPES[n].props ?? []).filter((p) => p.required && !(bound(n) && p.name === 'modelValue')).map((p) => `:${camelToKebab(p.name)}=${p.name}`)],
            content: (SHAPES[n].slots ?? []).includes('default'),
        })),
        ts: context?.typescript !== false,
        imports: { ...(names.some(bound) ? { vue: ['ref'] } : {}), vlossom: [...new Set(names)].sort() },
        declares: names.some(bound),
        script: true,
    };
}

export default {
    id: 'P16',
    world: 'mcp',
    method: 'every request of a bounded set is scaffolded by the real server over a simulated GitHub; the code is read back, compared with the request, and validated by the same server',
    assumptions: ['descriptions hold no markup', 'required props are bound to placeholders which, as the scaffold says, are left to be filled in'],
    scenarios(tier) {
        const deep = true;
        return ['usage', 'options', 'refused', 'styleSets', 'setup'].map((name) => ({ name, enumerate: true, deep }));
    },
    enumerator(world, scenario) {
        const cases = this[scenario.name](scenario.deep);
        return {
            total: cases.length,
            evaluate: async (i) => {
                const { args, repo, judge } = cases[i];
                const server = await world.server({ github: new GitHub(repo ?? shapes()) });
                const { data } = await server.call('scaffold_vlossom_code', args);
                const violation = data ? await judge(data, server) : 'no answer';
                return { state: `${scenario.name}${i}`, sample: args, outcome: `${scenario.name} ${data?.status}`, transitions: 2, violation: violation && `${json(args)}: ${violation}\n${data?.code ?? json(data?.scaffold ?? data)}` };
            },
        };
    },

    async accepted(data, server, { names, context, description, format, policy }) {
        if (data.status !== 'ok' || data.error || !data.code) {
            return `refused: ${data.status} ${data.error}`;
        }
        let code = data.code;
        if (format === 'markdown') {
            if (!code.startsWith('```vue\n') || !code.endsWith('\n```')) {
                return 'the markdown is not one fenced block';
            }
            code = code.slice(7, -4);
        }
        const { comment, ...got } = readBack(code);
        if (json(got) !== json(want(names, context, description))) {
            return `the code has ${json(got)} instead of ${json(want(names, context, description))}`;
        }
        const title = description.trim();
        if (title && (title.length <= 80 ? comment !== title : !(comment?.endsWith('...') && title.startsWith(comment.slice(0, -3)) && comment.length > 70 && comment.length < 90))) {
            return `the title is ${json(comment)}`;
        }
        if (json(data.scaffold.components.map((c) => c.name)) !== json(names)) {
            return `the components listed are ${json(data.scaffold.components)}`;
        }
        if (data.scaffold.components.some((c) => c.versionSupport.status !== 'supported')) {
            return `version support ${json(data.scaffold.components)}`;
        }
        if (json(data.policy) !== json({ vlossomFirst: policy?.vlossomFirst ?? 'strict', allowNativeControls: policy?.allowNativeControls ?? false, allowThirdPartyUi: policy?.allowThirdPartyUi ?? false })) {
            return `the policy is ${json(data.policy)}`;
        }
        const { data: check } = await server.call('validate_vlossom_usage', { kind: 'sfc', code, context: { version: context?.version ?? '2.4.0' } });
        return check?.valid && check.issues.length === 0 ? null : `the scaffolded code does not validate: ${json(check?.issues)}`;
    },

    rejected(data, { unknown = [], unsupported = [], skipped = false }) {
        if (data.code !== undefined || data.scaffold?.code !== undefined) {
            return 'code is returned with a refusal';
        }
        if (data.status !== (skipped ? 'skipped' : 'error') || !data.error) {
            return `status ${data.status}, error ${data.error}`;
        }
        if (json(data.unknownComponents ?? []) !== json(unknown)) {
            return `unknown components ${json(data.unknownComponents)} instead of ${json(unknown)}`;
        }
        const got = (data.unsupportedComponents ?? []).map((u) => u.name);
        if (json(got) !== json(unsupported) || (data.unsupportedComponents ?? []).some((u) => u.versionSupport.status !== 'unsupported')) {
            return `unsupported components ${json(data.unsupportedComponents)} instead of ${json(unsupported)}`;
        }
        return null;
    },

    // every list of components
    usage(deep) {
        const out = [];
        const names = [...Object.keys(SHAPES), 'VsNope', 'VsGone'];
        for (const [list, [context, v]] of product(sequences(names, deep ? 3 : 2, 0), VERSIONS)) {
            const args = { kind: 'component-usage', description: 'A page', components: list, context };
            out.push(this.usageCase(args, list, v));
        }
        // three, in both spellings
        const few = ['VsBound', 'VsNeedy', 'VsSlotted', 'VsLatest', 'VsNope'];
        for (const [list, spelling, [context, v]] of product(sequences(few, 3, 3), deep ? [0, 1, 2, 3, 4, 5, 6, 7] : [0, 5], VERSIONS.slice(0, 2))) {
            out.push(this.usageCase({ kind: 'component-usage', description: 'A page', components: list.map((n, i) => (spelling & (1 << i) ? kebab(n) : n)), context }, list, v));
        }
        return out;
    },
    usageCase(args, list, v) {
        const unknown = args.components.filter((_, i) => !SHAPES[list[i]]);
        const unsupported = list.filter((n) => SHAPES[n] && since(n) > v);
        return {
            args,
            judge: (d, server) =>
                !list.length ? this.rejected(d, {}) : unknown.length ? this.rejected(d, { unknown }) : unsupported.length ? this.rejected(d, { unsupported }) : this.accepted(d, server, { names: list, context: args.context, description: args.description }),
        };
    },

    options(deep) {
        const out = [];
        const descriptions = ['A login page', '', '   ', ' padded words ', 'x'.repeat(80), 'y'.repeat(81), 'long words '.repeat(20)];
        const lists = [['VsBound', 'VsSlotted'], ['VsPlain'], ['VsNeedy', 'VsBoundRequired', 'VsNeedy']];
        const policies = [undefined, ...['strict', 'prefer', 'off', undefined].flatMap((m) => [true, false, undefined].map((b) => ({ ...(m ? { vlossomFirst: m } : {}), ...(b === undefined ? {} : { allowNativeControls: b, allowThirdPartyUi: !b }) })))];
        for (const [description, names, typescript, [format, includeRules], policy] of product(descriptions, lists, [true, false, undefined], [['sfc'], ['markdown'], ['markdown', false], ['markdown', true], ['snippet', false], ['object'], [undefined]], deep ? policies : policies.filter((_, i) => i % 3 === 0))) {
            const context = { version: '2.5.0', ...(typescript === undefined ? {} : { typescript }), hasBusinessLogic: typescript };
            const args = { kind: 'component-usage', description, components: names, context, ...(format ? { output: { format, ...(includeRules === undefined ? {} : { includeRules }) } } : {}), ...(policy ? { policy } : {}) };
            out.push({ args, judge: (d, server) => this.accepted(d, server, { names, context, description, format, policy }) });
        }
        return out;
    },

    refused() {
        const out = [];
        for (const [kind, context, names] of product(['component-usage', 'style-set'], NONE, [['VsPlain'], ['VsNope'], [], ['VsLatest', 'VsBound']])) {
            out.push({ args: { kind, description: 'A page', components: names, component: names[0], ...(context ? { context } : {}) }, judge: (d) => this.rejected(d, { skipped: true }) });
        }
        // a package file without the library is another reason than no package file
        for (const [kind, context] of product(['component-usage', 'style-set'], BLANK)) {
            const ask = (c) => ({ kind, description: 'A page', components: ['VsPlain'], component: 'VsPlain', ...(c ? { context: c } : {}) });
            out.push({
                args: ask(context),
                judge: async (d, server) => {
                    const lacking = (await server.call('scaffold_vlossom_code', ask({ packageJson: '{"dependencies":{"vue":"3"}}' }))).data;
                    const none = (await server.call('scaffold_vlossom_code', ask())).data;
                    return this.rejected(d, { skipped: true }) ?? (d.error !== none.error || d.error === lacking.error ? `the reason is ${json(d.error)}` : null);
                },
            });
        }
        // a version given in words is not a missing one
        for (const [kind, context] of product(['component-usage', 'style-set'], [{ version: 'latest' }, { packageJson: '{"dependencies":{"vlossom":"latest"}}' }, { packageJson: '{"devDependencies":{"vlossom":"workspace:*"}}' }])) {
            out.push({ args: { kind, description: 'A page', components: ['VsPlain'], component: 'VsPlain', context }, judge: (d) => (d.status === 'ok' && d.code ? null : `refused: ${d.status} ${d.error}`) });
        }
        for (const [component, [context, v]] of product([undefined, 'VsNope', 'vs-nope', ...Object.keys(SHAPES), ...Object.keys(SHAPES).map(kebab)], VERSIONS)) {
            const name = Object.keys(SHAPES).find((n) => n === component || kebab(n) === component);
            const args = { kind: 'style-set', description: 'look', ...(component ? { component } : {}), context };
            out.push({ args, judge: (d) => (!name ? this.rejected(d, {}) : since(name) > v ? this.rejected(d, { unsupported: [name] }) : d.status === 'ok' && d.code && d.scaffold.component === name ? null : `refused: ${d.error}`) });
        }
        return out;
    },

    // every small interface
    styleSets(deep) {
        const out = [];
        const childTypes = { loading: 'VsLoadingStyleSet', wrapper: 'VsInputWrapperStyleSet', chip: "Omit<VsChipStyleSet, 'variables'>", spinner: 'VsLoadingStyleSet' };
        const variableSets = [[], ['tone'], ['tone', 'thickness'], [...'abcdefghijklmnopqrst']];
        for (const [variables, component, children, dollar, plain, base] of product(variableSets, [true, false], sequences(Object.keys(childTypes), deep ? 3 : 2, 0).filter((l) => new Set(l).size === l.length), [true, false], [true, false], ['', ' extends CSSProperties'])) {
            const key = (c) => (dollar ? `$${c}` : c);
            const text = `import type { CSSProperties } from 'vue';\n\nexport interface VsThingStyleSet${base} {\n${variables.length ? `    variables?: {\n${variables.map((v) => `        ${v}?: string;\n`).join('')}    };\n` : ''}${component ? '    component?: CSSProperties;\n' : ''}${plain ? '    title?: CSSProperties;\n' : ''}${children.map((c) => `    ${key(c)}?: ${childTypes[c]};\n`).join('')}}\n`;
            const repo = { refs: { main: files({ version: '2.5.0', components: [{ name: 'VsThing', types: text }] }) }, releases: [] };
            const args = { kind: 'style-set', description: 'look', component: variables.length % 2 ? 'VsThing' : 'vs-thing', context: { version: '2.5.0' } };
            out.push({
                args,
                repo,
                judge: async (d, server) => {
                    if (d.status !== 'ok' || !d.code) {
                        return `refused: ${d.error}`;
                    }
                    if (!/^const \w+: VsThingStyleSet = \{/.test(d.code)) {
                        return 'the object is not typed with the StyleSet of the component';
                    }
                    const top = [...d.code.matchAll(/^  ([\w$]+): \{/gm)].map((m) => m[1]);
                    const wanted = [...(variables.length ? ['variables'] : []), ...(component ? ['component'] : []), ...children.map(key)];
                    if (json([...top].sort()) !== json([...wanted].sort())) {
                        return `the sections are ${json(top)} instead of ${json(wanted)} for\n${text}`;
                    }
                    const named = [...d.code.matchAll(/^ {4}\/\/ (\w+): /gm)].map((m) => m[1]);
                    if (json(named) !== json(variables) || json(d.scaffold.availableVariables) !== json(variables)) {
                        return `the variables are ${json(named)} instead of ${json(variables)}`;
                    }
                    const refs = children.map((c) => json({ key: key(c), type: /Vs\w+StyleSet/.exec(childTypes[c])[0] })).sort();
                    if (json(d.scaffold.childRefs.map((r) => json({ key: r.key, type: r.type })).sort()) !== json(refs)) {
                        return `the child StyleSets are ${json(d.scaffold.childRefs)} instead of ${json(refs)}`;
                    }
                    const { data: check } = await server.call('validate_vlossom_usage', { kind: 'style-set', code: d.code, context: { version: '2.5.0' } });
                    return check?.valid && check.issues.length === 0 ? null : `the scaffolded StyleSet does not validate: ${json(check?.issues)}`;
                },
            });
        }
        return out;
    },

    setup() {
        const out = [];
        for (const [framework, version, description] of product(['vite', 'nuxt', undefined], [undefined, '2.5.0', '2.3.0'], ['Set up', ''])) {
            const context = { ...(framework ? { framework } : {}), ...(version ? { version } : {}) };
            out.push({
                args: { kind: 'project-setup', description, ...(Object.keys(context).length ? { context } : {}) },
                judge: async (d, server) => {
                    if (d.status !== 'ok' || !d.validationPayload) {
                        return `refused: ${d.error}`;
                    }
                    const p = d.validationPayload;
                    if (json(p.files) !== json(d.scaffold.files) || p.files.length !== 1) {
                        return 'the files to validate are not the scaffolded files';
                    }
                    const nuxt = framework === 'nuxt';
                    if (p.kind !== 'project-setup' || p.context?.framework !== (nuxt ? 'nuxt' : 'vite')) {
                        return `the validation is prepared for ${json(p.context)}`;
                    }
                    if (/defineNuxtPlugin/.test(p.files[0].content) !== nuxt || /createApp/.test(p.files[0].content) === nuxt || p.files[0].path !== (nuxt ? 'plugins/vlossom.ts' : 'src/main.ts')) {
                        return `the setup for ${framework} is ${json(p.files)}`;
                    }
                    const installed = d.scaffold.commands.join(' ');
                    if (!['vlossom', 'vue', 'tailwindcss'].every((n) => installed.includes(n) && JSON.parse(p.packageJson).dependencies[n])) {
                        return `not everything is installed: ${installed}`;
                    }
                    const { data: check } = await server.call('validate_vlossom_usage', p);
                    return check?.valid && check.issues.length === 0 ? null : `the scaffolded project does not validate: ${json(check?.issues)}`;
                },
            });
        }
        return out;
    },
};
