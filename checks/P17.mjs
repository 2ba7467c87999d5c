// A search returns the registry entries that match, best first, within the limit.
import { GitHub } from '../lib/mcp-env.mjs';
import { files, kebab } from '../lib/mcp-repo.mjs';
import { json, product } from '../lib/kit.mjs';

const COMPONENTS = ['VsAccordion', 'VsButton', 'VsButtonBar', 'VsChip', 'VsDrawer', 'VsFileDrop', 'VsGrid', 'VsIconButton', 'VsInput', 'VsLoading', 'VsModal', 'VsSearchInput', 'VsSelect', 'VsTable', 'VsTextWrap', 'VsToast'];
const DIRECTIVES = [['tooltip', 'Shows a hint beside a button.'], ['scroll-shadow', 'Shadow while scrolling.', '2.2.0+'], ['modal-drag', 'Moves a panel.']];
const COMPOSABLES = [['scroll-lock', 'useScrollLock', 'Locks scrolling behind a modal.'], ['button-group', 'useButtonGroup', 'Groups things.', '2.3.0+'], ['form', 'useForm', 'Collects input values.']];
const TOKENS = [['--vs-app-bg', 'color-scheme'], ['--vs-radius-md', 'radius'], ['--vs-red-100', 'palette'], ['--vs-modal-z-index', 'z-index'], ['--vs-comp-height-md', 'size']].sort();
const RELEASES = [
    ['2.3.0', 'New button and table', '2025-03-01'],
    ['2.2.0', 'Modal repaired', '2025-02-01'],
    ['2.1.0', 'Button repaired', '2025-01-01'],
];
const OPTIONS = ['components', 'colorScheme', 'styleSet', 'theme', 'radiusRatio'];
const RULES = ['R01', 'R02', 'R03', 'R04', 'R05', 'PREFER_VLOSSOM_COMPONENT'];

const build = (components) => ({
    refs: {
        main: files({
            version: '2.3.0',
            components: components.map((name) => ({ name })),
            directives: DIRECTIVES.map(([name, description, availableVersion]) => ({ name, description, ...(availableVersion ? { availableVersion } : {}) })),
            composables: COMPOSABLES.map(([dir, name, description, availableVersion]) => ({ dir, name, description, ...(availableVersion ? { availableVersion } : {}) })),
            styles: { 'variables.css': `:root {\n${TOKENS.map(([n]) => `    ${n}: 1px;\n`).join('')}}\n` },
        }),
    },
    releases: RELEASES.map(([v, text, date]) => ({ tag_name: `v${v}`, name: null, draft: false, prerelease: false, published_at: `${date}T00:00:00Z`, body: `## Features\n- ${text}\n` })),
});
const worlds = new Map();
const repo = (components = COMPONENTS) => {
    const k = components.join();
    if (!worlds.has(k)) {
        worlds.set(k, build(components));
    }
    return worlds.get(k);
};

const ENTRIES = {
    component: COMPONENTS.map((n) => ({ id: n, texts: [n, kebab(n)] })),
    directive: DIRECTIVES.map(([n, d]) => ({ id: `v-${n}`, texts: [`v-${n}`, `vs-${n}`, d] })),
    composable: COMPOSABLES.map(([dir, n, d]) => ({ id: n, texts: [n, dir, d] })),
    token: TOKENS.map(([n, c]) => ({ id: n, texts: [n, c] })),
    changelog: RELEASES.map(([v, text, date]) => ({ id: v, texts: [`${v} ${date}  ${text} `] })),
};

// other names of things, as users write them
const OTHER_NAMES = {
    dropdown: ['VsSelect'], popup: ['VsModal', 'VsDrawer'], dialog: ['VsModal'], snackbar: ['VsToast'], notification: ['VsToast'], sidebar: ['VsDrawer'], tag: ['VsChip'], badge: ['VsChip'],
    spinner: ['VsLoading'], 'file upload': ['VsFileDrop'], 'drag and drop': ['VsFileDrop'], collapse: ['VsAccordion'], autocomplete: ['VsSearchInput', 'VsSelect'], chart: ['VsTable', 'VsGrid'],
    'floating action button': ['VsButton'], 'data table': ['VsTable'], searchbar: ['VsSearchInput'], validation: ['VsInput'], menu: ['VsDrawer', 'VsSelect'], panel: ['VsDrawer', 'VsAccordion'],
    list: ['VsTable'], pill: ['VsChip'], copy: ['VsTextWrap'], error: ['VsInput'],
};

const QUERIES = [
    'button', 'VsButton', 'vs-button', 'vsbutton', 'modal', 'input', 'vs-input', 'VsSearchInput', 'search-input', 'table', 'vs', 'VsIconButton', 'zzz', 'Vs Button', 'a form with a table', 'e', 'modal, table', 'toast/modal', 'grid', 'chip',
    'scroll', 'tooltip', 'usescrolllock', 'useForm', 'scroll-lock', 'shadow', 'hint', '--vs-app-bg', 'radius', 'palette', 'size', 'bg', '2.1.0', 'repaired', 'new', 'theme', 'styleSet', 'R03', 'vlossom', 'registry', 'styling', 'selectors', 'radii', 'border', '2025-02', '01-01', 'presetName',
    ...Object.keys(OTHER_NAMES),
];
const TARGETS = ['component', 'directive', 'composable', 'token', 'option', 'changelog', 'rule'];

const COVERAGE = [
    ['actions and buttons', ['button', 'submit', 'action', 'save', 'cancel', 'delete'], ['VsButton']],
    ['text input', ['input', 'field', 'text', 'email', 'password'], ['VsInput', 'VsSearchInput']],
    ['select and dropdown', ['select', 'dropdown', 'combobox', 'picker', 'option'], ['VsSelect']],
    ['data table', ['table', 'rows', 'columns', 'pagination'], ['VsTable']],
    ['modal dialog', ['modal', 'dialog', 'popup', 'confirm'], ['VsModal']],
    ['tabs', ['tabs', 'tabbed'], []],
    ['file upload', ['file', 'upload', 'dropzone'], ['VsFileDrop']],
];

const search = async (server, args) => (await server.call('search_vlossom', args)).data;
// options and rules are those the server itself publishes
const registered = async (server, target) => {
    const { result } = await server.request('resources/read', { uri: target === 'option' ? 'vlossom://options/create-vlossom' : 'vlossom://rules/coding' });
    return JSON.parse(result.contents[0].text).map((e) => (target === 'option' ? { id: e.name, texts: [e.name, e.description] } : { id: e.id, texts: [e.id, e.category, e.rule] }));
};
const ids = (d) => d.results.map((r) => r.id);

export default {
    id: 'P17',
    world: 'mcp',
    method: 'every query, target, limit and intent of a bounded set is searched by the real server over a simulated GitHub; the results are compared with the entries the library was written from and with each other',
    assumptions: ['names in one registry are distinct'],
    scenarios() {
        const deep = true;
        return ['matches', 'limits', 'exact', 'identity', 'otherNames', 'everything', 'coverage', 'listing'].map((name) => ({ name, enumerate: true, deep }));
    },
    enumerator(world, scenario) {
        const cases = this[scenario.name](scenario.deep);
        return {
            total: cases.length,
            evaluate: async (i) => {
                const { sample, components, run } = cases[i];
                const server = await world.server({ github: new GitHub(repo(components)) });
                let violation = await run(server, (args) => search(server, args));
                return { state: `${scenario.name}${i}`, sample, outcome: `${scenario.name}`, transitions: 1, violation: violation && `${scenario.name} ${json(sample)}: ${violation}` };
            },
        };
    },

    // what is returned is what matches
    matches() {
        return product(TARGETS, QUERIES, ['as is', 'padded', 'upper']).map(([target, q, style]) => ({
            sample: { target, q, style },
            run: async (server, find) => {
                const query = style === 'padded' ? `  ${q} ` : style === 'upper' ? q.toUpperCase() : q;
                const d = await find({ query, target, limit: 50 });
                if (!d || d.status === 'error') {
                    return `no answer: ${d?.error}`;
                }
                if (d.target !== target || d.query !== query.trim() || d.intent !== 'lookup') {
                    return `the request is echoed as ${json([d.target, d.query, d.intent])}`;
                }
                const got = ids(d);
                if (new Set(got).size !== got.length || d.total !== got.length || d.status !== (got.length ? 'ok' : 'empty')) {
                    return `${d.status}, total ${d.total}, results ${json(got)}`;
                }
                if (d.results.some((r) => r.type !== target || r.name !== r.id)) {
                    return `an entry of another kind: ${json(d.results)}`;
                }
                if (d.results.some((r, k) => k && r.score > d.results[k - 1].score) && target !== 'changelog') {
                    return `not best first: ${json(d.results.map((r) => [r.id, r.score]))}`;
                }
                if (d.results.some((r) => !(r.score > 0))) {
                    return 'an entry without a score';
                }
                const terms = (d.expandedTerms ?? []).map((t) => t.toLowerCase());
                if (!terms.includes(query.trim().toLowerCase())) {
                    return `the terms are ${json(terms)}`;
                }
                if (target === 'component') {
                    terms.push(...query.toLowerCase().split(/[\s,./]+/).filter((w) => w.length > 1 && !['a', 'an', 'the', 'with', 'and', 'for'].includes(w)));
                }
                const entries = ENTRIES[target] ?? (await registered(server, target));
                if (entries) {
                    const want = entries.filter((e) => e.texts.some((t) => terms.some((term) => t.toLowerCase().includes(term)))).map((e) => e.id);
                    if (json([...got].sort()) !== json([...want].sort())) {
                        return `${json(got)} found instead of ${json(want)}`;
                    }
                    if (target === 'changelog' && json(got) !== json(want)) {
                        return `releases out of order: ${json(got)}`;
                    }
                } else if (got.some((g) => !(target === 'option' ? OPTIONS : RULES).includes(g))) {
                    return `not an entry: ${json(got)}`;
                }
                // equally good entries: components by name, others in registry order
                if (entries && target !== 'changelog') {
                    const at = (id) => entries.findIndex((e) => e.id === id);
                    for (let k = 1; k < got.length; k++) {
                        if (d.results[k].score === d.results[k - 1].score && (target === 'component' ? got[k] < got[k - 1] : at(got[k]) < at(got[k - 1]))) {
                            return `equally good entries out of order: ${json(got)}`;
                        }
                    }
                }
                return null;
            },
        }));
    },

    // a limit cuts the list, and nothing else
    limits(deep) {
        return product([...TARGETS, 'all'], deep ? QUERIES : QUERIES.slice(0, 36), ['', 'build-ui']).filter(([, , intent], k) => !intent || k % 3 === 0).map(([target, query, intent]) => ({
            sample: { target, query, intent },
            run: async (server, find) => {
                const base = { query, target, ...(intent ? { intent } : {}) };
                const full = await find({ ...base, limit: 50 });
                const byDefault = await find(base);
                if (target !== 'all' && json(ids(byDefault)) !== json(ids(full).slice(0, 10))) {
                    return `without a limit ${json(ids(byDefault))}`;
                }
                for (const limit of [1, 2, 3, 10, 49]) {
                    const d = await find({ ...base, limit });
                    if (d.status === 'ambiguous') {
                        if (d.choices.some((c) => c.count > limit)) {
                            return `limit ${limit} gives ${json(d.choices)}`;
                        }
                        continue;
                    }
                    if (json(d.results) !== json(full.results.slice(0, limit)) || d.total !== Math.min(limit, full.total)) {
                        return `limit ${limit} gives ${json(ids(d))} of ${json(ids(full))}`;
                    }
                }
                return null;
            },
        }));
    },

    // the entry of that very name comes first
    exact() {
        const out = [];
        for (const [target, entries] of Object.entries(ENTRIES)) {
            if (target === 'changelog') {
                continue;
            }
            for (const e of entries) {
                for (const q of target === 'component' ? e.texts : target === 'composable' ? e.texts.slice(0, 2) : [e.id]) {
                    for (const query of [q, q.toLowerCase(), ` ${q}`]) {
                        out.push({
                            sample: { target, query },
                            run: async (server, find) => {
                                const d = await find({ query, target });
                                if (d.results[0]?.id !== e.id) {
                                    return `${json(ids(d))} instead of ${e.id} first`;
                                }
                                // what is found can be looked up
                                const { data: r } = await server.call('get_vlossom_reference', { type: target, id: d.results[0].id });
                                return r?.found ? null : `${e.id} cannot be looked up: ${r?.message}`;
                            },
                        });
                    }
                }
            }
        }
        return out;
    },

    // a result says what the reference says
    identity() {
        return product(TARGETS.filter((t) => t !== 'component'), [undefined, '2.0.0', '2.2.0', '2.3.0'], ['', 'e', 'button', 'scroll', 'modal']).map(([target, version, query]) => ({
            sample: { target, version, query },
            run: async (server, find) => {
                const v = version ? { version } : {};
                const d = await find({ target, query, limit: 50, ...v });
                for (const r of d.results) {
                    const { data: one } = await server.call('get_vlossom_reference', { type: target, id: r.id, ...v });
                    const e = { token: one.reference?.tokens?.[0], option: one.reference?.options?.[0], rule: one.reference?.rule, changelog: one.reference?.versions?.[0] }[target] ?? one.reference;
                    const said = { token: `${e?.category}; default ${e?.defaultValue}`, rule: e?.rule, changelog: e?.date }[target] ?? e?.description;
                    if (!one.found || (e.name ?? e.id ?? e.version) !== r.name || r.description !== said) {
                        return `${r.id} is described as ${json(r.description)} instead of ${json(said)}`;
                    }
                    if (json(r.versionSupport) !== json(e.versionSupport)) {
                        return `${r.id} has the version ${json(r.versionSupport)} instead of ${json(e.versionSupport)}`;
                    }
                    if (json(d.versionContext) !== json(one.versionContext)) {
                        return `the version asked about is ${json(d.versionContext)} instead of ${json(one.versionContext)}`;
                    }
                }
                return null;
            },
        }));
    },

    otherNames() {
        return product(Object.keys(OTHER_NAMES), ['', 'a ', 'need an ', 'FOR '], ['', ' please', 's', ', too']).map(([name, before, after]) => ({
            sample: { name, before, after },
            run: async (server, find) => {
                const d = await find({ query: before + name + after });
                const missing = OTHER_NAMES[name].filter((n) => !ids(d).includes(n));
                return missing.length ? `${json(missing)} not found among ${json(ids(d))}` : null;
            },
        }));
    },

    // all kinds at once: ambiguous if several match
    everything(deep) {
        return product(QUERIES, [undefined, 2, 50], ['lookup', 'build-ui']).map(([query, limit, intent]) => ({
            sample: { query, limit, intent },
            run: async (server, find) => {
                const l = limit ? { limit } : {};
                const d = await find({ query, target: 'all', intent, ...l });
                const groups = [];
                for (const target of TARGETS.filter((t) => t !== 'changelog')) {
                    const one = await find({ query, target, ...l });
                    if (one.results.length) {
                        groups.push([target, one]);
                    }
                }
                if (groups.length > 1) {
                    const want = groups.map(([target, one]) => ({ target, count: one.total, sample: ids(one).slice(0, 3) }));
                    if (d.status !== 'ambiguous' || d.results.length || json(d.choices.map((c) => [c.target, c.count, c.sample])) !== json(want.map((c) => [c.target, c.count, c.sample])) || d.total !== want.reduce((a, c) => a + c.count, 0)) {
                        return `${d.status}, total ${d.total}, ${json(d.choices)} instead of ${json(want)}`;
                    }
                    return null;
                }
                const want = groups[0]?.[1].results ?? [];
                const covered = intent === 'build-ui' && d.coverage?.length;
                return json(d.results) === json(want) && d.status === (want.length || covered ? 'ok' : 'empty') && !d.choices ? null : `${d.status} ${json(ids(d))} instead of ${json(want.map((r) => r.id))}`;
            },
        }));
    },

    // what a described screen needs, and whether this version has it
    coverage(deep) {
        const out = [];
        const words = COVERAGE.flatMap(([requirement, keywords]) => keywords.map((k) => [requirement, k]));
        const sets = [COMPONENTS, ['VsInput', 'VsTable'], ['VsSearchInput']];
        for (const [[ra, a], [rb, b], components, style] of product(words, deep ? words : words.filter((_, i) => i % 4 === 0), sets, ['as is', 'upper'])) {
            const query = style === 'upper' ? `A PAGE: ${a.toUpperCase()}, ${b.toUpperCase()}` : `A page: ${a}, ${b}`;
            out.push({
                sample: { query, components: components.length },
                components,
                run: async (server, find) => {
                    const plain = await find({ query });
                    if (plain.coverage) {
                        return 'coverage that was not asked for';
                    }
                    const d = await find({ query, intent: 'build-ui' });
                    const text = query.toLowerCase();
                    for (const [requirement, keywords, list] of COVERAGE) {
                        const entry = d.coverage.filter((c) => c.requirement === requirement);
                        const known = keywords.some((k) => text.includes(k));
                        if (known && entry.length !== 1) {
                            return `${requirement} is listed ${entry.length} times`;
                        }
                        if (known) {
                            const want = list.filter((n) => components.includes(n));
                            const got = entry[0].components.map((c) => c.name);
                            if (json(got) !== json(want) || entry[0].covered !== want.length > 0 || entry[0].confidence !== (want.length ? 'direct' : 'none')) {
                                return `${requirement} is ${entry[0].covered ? '' : 'not '}covered by ${json(got)} instead of ${json(want)}`;
                            }
                        }
                    }
                    if (new Set(d.coverage.map((c) => c.requirement)).size !== d.coverage.length) {
                        return 'a requirement is listed twice';
                    }
                    const excess = d.coverage.filter((c) => { const k = COVERAGE.find((x) => x[0] === c.requirement); return k && !k[1].some((w) => text.includes(w)) && !['search field', 'cta', 'grid data', 'drag and drop', 'sections'].some((w) => text.includes(w)); });
                    if (excess.length) {
                        return `${excess[0].requirement} was not asked for`;
                    }
                    return json(d.results) === json(plain.results) && d.status === 'ok' ? null : `the results change with the intent: ${d.status}`;
                },
            });
        }
        return out;
    },

    // without a query: the registry itself
    listing(deep) {
        return product([...TARGETS, undefined], ['', '  ', undefined], [undefined, 1, 4, 50], [COMPONENTS, COMPONENTS.slice(0, 1), []]).map(([target, query, limit, components]) => ({
            sample: { target, query, limit, components: components.length },
            components,
            run: async (server, find) => {
                const d = await find({ ...(target ? { target } : {}), ...(query === undefined ? {} : { query }), ...(limit ? { limit } : {}) });
                const all = { component: components, directive: DIRECTIVES.map((x) => `v-${x[0]}`), composable: COMPOSABLES.map((x) => x[1]), token: TOKENS.map((x) => x[0]), option: OPTIONS, changelog: RELEASES.map((x) => x[0]), rule: RULES }[target ?? 'component'];
                const got = ids(d);
                const n = Math.min(limit ?? 10, all.length);
                if (!components.length && (target ?? 'component') === 'component') {
                    return got.length === 0 ? null : `${json(got)} from an empty registry`;
                }
                return got.length === n && got.every((g) => all.includes(g)) && new Set(got).size === n && (['composable', 'directive'].includes(target) || json(got) === json(all.slice(0, n))) && d.total === n && d.status === 'ok' ? null : `${d.status} ${json(got)} instead of ${json(all.slice(0, n))}`;
            },
        }));
    },
};
