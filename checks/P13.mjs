// Every answer is read from the version the caller's project uses.
import { GitHub } from '../lib/mcp-env.mjs';
import { library, REQUESTS, content, releases } from '../lib/mcp-world.mjs';
import { json, product } from '../lib/kit.mjs';

// what every document of a ref mentions
const letters = (ref) => [...ref].map((c) => (/[a-z]/i.test(c) ? c.toLowerCase() : 'abcdefghij'[Number(c)] ?? 'z')).join('');
const mark = (ref) => `Mark${letters(ref)}End`;
const libraries = new Map();
function at(ref, extra) {
    if (!libraries.has(ref)) {
        libraries.set(ref, library(ref, mark(ref), extra));
    }
    return libraries.get(ref);
}

const pkg = (deps) => JSON.stringify(deps);
const dep = (r) => pkg({ dependencies: { vue: '^3.0.0', vlossom: r } });

// what the caller says, and which version that is
const explicit = (version, detected) => ({ args: { version }, source: version.trim() ? 'input' : 'unknown', detected });
const range = (r, detected) => ({ args: { packageJson: dep(r) }, source: 'packageJson', detected });
function sayings(v) {
    return [
        { args: {}, source: 'unknown', detected: undefined },
        explicit(v, v),
        explicit(`v${v}`, v),
        explicit(`  ${v} `, v),
        explicit(`^${v}`, v),
        explicit('latest', undefined),
        explicit('*', undefined),
        explicit('2.x', undefined),
        explicit('', undefined),
        range(v, v),
        range(`^${v}`, v),
        range(`~${v}`, v),
        range(`>=${v}`, v),
        range(`=${v}`, v),
        range(`npm:vlossom@${v}`, v),
        range('latest', undefined),
        range('next', undefined),
        range('beta', undefined),
        range('*', undefined),
        range('workspace:*', undefined),
        range(`workspace:^${v}`, undefined),
        range(`file:../vlossom-${v}.tgz`, undefined),
        range(`link:../vlossom-${v}`, undefined),
        { args: { packageJson: pkg({ devDependencies: { vlossom: `^${v}` } }) }, source: 'packageJson', detected: v },
        { args: { packageJson: pkg({ peerDependencies: { vlossom: v } }) }, source: 'packageJson', detected: v },
        { args: { packageJson: pkg({ dependencies: { vlossom: '2.9.9' }, devDependencies: { vlossom: `^${v}` } }) }, source: 'packageJson', detected: v },
        { args: { packageJson: pkg({ dependencies: { vlossom: '2.9.9' }, devDependencies: { vlossom: '2.9.8' }, peerDependencies: { vlossom: `>=${v}` } }) }, source: 'packageJson', detected: v },
        { args: { packageJson: pkg({ dependencies: { vue: '3.4.0' } }) }, source: 'unknown', detected: undefined },
        { args: { packageJson: '{ not json' }, source: 'unknown', detected: undefined },
        { args: { packageJson: '' }, source: 'unknown', detected: undefined },
        // what is said outright wins over the package file
        { args: { version: v, packageJson: dep('^2.9.9') }, source: 'input', detected: v },
        { args: { version: '2.9.9', packageJson: dep(v) }, source: 'input', detected: '2.9.9' },
        { args: { version: ' ', packageJson: dep(v) }, source: 'packageJson', detected: v },
        { args: { version: v, packageJson: '{' }, source: 'input', detected: v },
    ];
}

const candidates = (v) => (v === undefined ? [] : [`vlossom-v${v}`, `v${v}`, v]);

// answers showing library data
const KINDS = {
    refButton: (d) => d.found === true,
    refInput: (d) => d.found === true,
    refSource: (d) => d.found === true && d.reference.source.source,
    refDirectives: (d) => d.found === true,
    refDirective: (d) => d.found === true,
    refComposable: (d) => d.found === true,
    refToken: (d) => d.found === true,
    refOption: (d) => d.found === true,
    findDirective: (d) => d.status === 'ok',
    findComposable: (d) => d.status === 'ok',
    findToken: (d) => d.status === 'ok',
    coverage: (d) => d.coverage?.length > 0,
};
// answers naming what exists: a component which only that version has
const PRESENCE = {
    findOnly: (v) => ({ method: 'tools/call', params: { name: 'search_vlossom', arguments: { query: 'only', ...v } } }),
    refOnly: (v, id) => ({ method: 'tools/call', params: { name: 'get_vlossom_reference', arguments: { type: 'component', id, ...v } } }),
    checkOnly: (v, id) => ({ method: 'tools/call', params: { name: 'validate_vlossom_usage', arguments: { kind: 'sfc', code: `<template><${id.replace(/([a-z0-9])([A-Z])/g, '$1-$2').toLowerCase()} /></template>`, ...('packageJson' in v ? { packageJson: v.packageJson } : {}), context: 'version' in v ? { version: v.version } : {} } } }),
    lookOnly: (v, id) => ({ method: 'tools/call', params: { name: 'scaffold_vlossom_code', arguments: { kind: 'style-set', description: 'x', component: id, context: v } } }),
    useOnly: (v, id) => ({ method: 'tools/call', params: { name: 'scaffold_vlossom_code', arguments: { kind: 'component-usage', description: 'x', components: [id], context: v } } }),
};
const onlyIn = (ref) => `VsOnly${letters(ref)}`;

function checkContext(ctx, said, ref) {
    if (!ctx) {
        return 'the answer does not say which version it is about';
    }
    const want = { source: said.source, detectedVersion: said.detected, resolvedRef: ref };
    for (const k of Object.keys(want)) {
        if (ctx[k] !== want[k]) {
            return `versionContext.${k} is ${json(ctx[k])} instead of ${json(want[k])}`;
        }
    }
    const fell = said.detected !== undefined && ref === 'main';
    const warned = ctx.warnings.filter((w) => /falling back to main/.test(w)).length;
    if (warned !== (fell ? 1 : 0) || (ctx.fallbackRef === 'main') !== fell) {
        return `the fallback to main is ${fell ? 'not ' : ''}announced: ${json(ctx)}`;
    }
    if (fell && !ctx.warnings.some((w) => w.includes(`v${said.detected};`) || w.includes(`v${said.detected} `))) {
        return `the fallback warning does not name the version: ${json(ctx.warnings)}`;
    }
    const asked = said.args.version?.trim() || undefined;
    if (ctx.requestedVersion !== asked) {
        return `the version asked for is given as ${json(ctx.requestedVersion)} instead of ${json(asked)}`;
    }
    // what was said but not understood is named
    const raw = said.source === 'input' ? asked : said.source === 'packageJson' ? JSON.parse(said.args.packageJson) : undefined;
    const text = typeof raw === 'object' ? { ...raw.dependencies, ...raw.devDependencies, ...raw.peerDependencies }.vlossom : raw;
    const named = text !== undefined && ctx.warnings.some((w) => w.includes(`'${text}'`));
    if (named !== (text !== undefined && said.detected === undefined)) {
        return `warnings ${json(ctx.warnings)} for ${json(text)}`;
    }
    const unclear = ctx.warnings.filter((w) => /No vlossom version was provided|Could not resolve a concrete/.test(w)).length;
    if (unclear !== (said.detected === undefined ? 1 : 0)) {
        return `an unresolved version is ${said.detected === undefined ? 'not ' : ''}announced: ${json(ctx.warnings)}`;
    }
    return null;
}

// how the first version is written, and which it is
const NOTATIONS = [['2.1.0+', '2.1.0'], ['2.1.0', '2.1.0'], ['v2.1.0', '2.1.0'], ['>=2.1.0', '2.1.0'], ['`2.1.0`+', '2.1.0'], ['2.1.0 and later', '2.1.0'], ['TBD', undefined], ['-', undefined], ['next', undefined], ['2', undefined]];
const number = (v) => v.split('.').map(Number);
function atLeast(v, min) {
    const [a, b] = [number(v.split('-')[0]), number(min)];
    for (let i = 0; i < 3; i++) {
        if (a[i] !== b[i]) {
            return a[i] > b[i];
        }
    }
    return true;
}

export default {
    id: 'P13',
    world: 'mcp',
    method: 'every way of naming the version, every set of existing refs and every kind of request is executed against the real server over a simulated GitHub whose refs hold different libraries; every pair of project version and minimum version over a small grid is compared',
    assumptions: ['GitHub answers every read'],
    scenarios(tier) {
        const deep = tier === 'thorough';
        return [
            { name: 'refs', enumerate: true, versions: deep ? ['2.3.0', '2.0.0-beta.1', '12.0.10', '2.3.0-rc.2'] : ['2.3.0', '2.0.0-beta.1'] },
            { name: 'notations', enumerate: true },
            { name: 'support', enumerate: true, majors: deep ? [0, 1, 2, 10] : [1, 2, 10], minors: deep ? [0, 2, 9, 10] : [0, 9, 10], patches: deep ? [0, 2, 10] : [0, 2] },
        ];
    },

    async enumerator(world, scenario) {
        if (scenario.name === 'refs') {
            const cases = [];
            for (const v of scenario.versions) {
                for (const bits of product([0, 1], [0, 1], [0, 1])) {
                    const refs = candidates(v).filter((_, i) => bits[i]);
                    for (const said of sayings(v)) {
                        for (const kind of [...Object.keys(KINDS), ...Object.keys(PRESENCE)]) {
                            cases.push({ v, refs, said, kind });
                        }
                    }
                }
            }
            return { total: cases.length, evaluate: (i) => this.read(world, cases[i]) };
        }
        if (scenario.name === 'notations') {
            const cases = product(NOTATIONS, [undefined, 'latest', '2.0.9', '2.1.0', '2.1.0-rc.1', '3.0.0', '^2.1.4'], ['component', 'directive', 'composable', 'plugin']);
            return { total: cases.length, evaluate: (i) => this.notation(world, ...cases[i]) };
        }
        const all = product(scenario.majors, scenario.minors, scenario.patches).map((p) => p.join('.'));
        const cases = product(all.flatMap((v) => [v, `${v}-beta.3`]), all);
        return { total: cases.length, evaluate: (i) => this.support(world, ...cases[i]) };
    },

    async read(world, { v, refs, said, kind }) {
        // main and near misses exist throughout
        const present = ['main', 'v2.3.1', 'vlossom-v2.30.0', '2.3', 'v2.0.0', ...refs];
        const repo = { refs: {}, releases };
        for (const ref of present) {
            repo.refs[ref] = at(ref, { components: [{ name: onlyIn(ref) }, { name: 'VsOnlyEverywhere' }] });
        }
        const ref = candidates(said.detected).find((r) => present.includes(r)) ?? 'main';
        const server = await world.server({ github: new GitHub(repo) });
        const sample = { refs, said: said.args, kind };
        const done = (violation) => ({ state: json([v, refs, said.args, kind]), sample, outcome: `${kind} ${ref}`, transitions: 1, violation: violation && `${kind} with ${json(said.args)} and refs ${present.join(' ')}: ${violation}` });

        if (kind in KINDS) {
            const { method, params } = REQUESTS[kind](said.args);
            const data = content(await server.request(method, params));
            if (!KINDS[kind](data)) {
                return done(`not answered: ${json(data).slice(0, 300)}`);
            }
            const bad = checkContext(data.versionContext, said, ref);
            if (bad) {
                return done(bad);
            }
            const own = data.reference?.source;
            if (kind === 'refSource' && (own.ref !== ref || !own.url.includes(`/${ref}/`) || Boolean(own.fallback) !== (said.detected !== undefined && ref === 'main'))) {
                return done(`the source is said to be from ${own.ref} (${own.url}), ${own.fallback ? '' : 'not '}in place of another`);
            }
            const text = JSON.stringify({ ...data, versionContext: 0 });
            const seen = present.filter((r) => text.includes(mark(r)));
            if (seen.some((r) => r !== ref) || !seen.includes(ref)) {
                return done(`data comes from ${seen.join(', ') || 'nowhere'} instead of ${ref}`);
            }
            return done(null);
        }

        for (const r of [ref, present.find((x) => x !== ref)]) {
            const { method, params } = PRESENCE[kind](said.args, onlyIn(r));
            const data = content(await server.request(method, params));
            if ((kind === 'useOnly' || kind === 'lookOnly') && said.source === 'unknown') {
                if (data.status !== 'skipped') {
                    return done(`code is written for a project without vlossom: ${json(data).slice(0, 200)}`);
                }
                continue;
            }
            const bad = checkContext(data.versionContext, said, ref);
            if (bad) {
                return done(bad);
            }
            const exists = {
                findOnly: () => data.results.some((x) => x.id === onlyIn(r)),
                refOnly: () => data.found,
                checkOnly: () => !data.issues.some((x) => x.ruleId === 'COMPONENT_EXISTS'),
                lookOnly: () => data.status === 'ok' && data.code.includes(onlyIn(r)),
                useOnly: () => data.status === 'ok' && data.code.includes(onlyIn(r)),
            }[kind]();
            if (exists !== (r === ref)) {
                return done(`a component which only ${r} has is reported as ${exists ? 'existing' : 'unknown'}`);
            }
        }
        return done(null);
    },

    async notation(world, [written, minimum], version, kind) {
        const repo = {
            refs: { main: library('9.9.9', 'main', { components: [{ name: 'VsGauge', availableVersion: written, slots: ['default'] }], directives: [{ name: 'gauge', availableVersion: written }], composables: [{ dir: 'gauge', name: 'useGauge', availableVersion: written }], plugins: [{ name: 'gauge', availableVersion: written }] }) },
            releases,
        };
        const server = await world.server({ github: new GitHub(repo) });
        const ids = { component: 'VsGauge', directive: 'v-gauge', composable: 'useGauge' };
        const { data } = await server.call('get_vlossom_reference', { type: kind === 'plugin' ? 'option' : kind, id: ids[kind], ...(version ? { version } : {}) });
        const got = (kind === 'plugin' ? data.reference?.plugins.find((p) => p.property === 'gauge') : data.reference)?.versionSupport;
        const core = version?.match(/\d+\.\d+\.\d+(-\S+)?/)?.[0];
        const status = core === undefined || minimum === undefined ? 'unknown' : atLeast(core, minimum) ? 'supported' : 'unsupported';
        const want = { status, minimumVersion: minimum, requestedVersion: core, availableVersion: written };
        let violation = null;
        for (const k of Object.keys(want)) {
            if (got?.[k] !== want[k]) {
                violation ??= `${kind} available from ${json(written)} for ${json(version)}: ${k} is ${json(got?.[k])} instead of ${json(want[k])}`;
            }
        }
        if (status === 'unsupported' && ![minimum, core].every((v) => got.message.includes(v))) {
            violation ??= `the message ${json(got.message)} does not name ${minimum} and ${core}`;
        }
        return { state: json([written, version, kind]), sample: { written, version, kind }, outcome: `${kind} ${status}`, transitions: 1, violation };
    },

    async support(world, version, minimum) {
        const repo = {
            refs: { main: library('9.9.9', 'main', { components: [{ name: 'VsGauge', description: 'g', availableVersion: `${minimum}+`, slots: ['default'] }], directives: [{ name: 'gauge', availableVersion: `${minimum}+` }], composables: [{ dir: 'gauge', name: 'useGauge', availableVersion: `${minimum}+` }], plugins: [{ name: 'gauge', availableVersion: `${minimum}+` }] }) },
            releases,
        };
        const ok = atLeast(version, minimum);
        const server = await world.server({ github: new GitHub(repo) });
        const ref = await server.call('get_vlossom_reference', { type: 'component', id: 'VsGauge', version });
        const use = await server.call('scaffold_vlossom_code', { kind: 'component-usage', description: 'x', components: ['VsGauge'], context: { version } });
        const look = await server.call('scaffold_vlossom_code', { kind: 'style-set', description: 'x', component: 'VsGauge', context: { version } });
        const check = await server.call('validate_vlossom_usage', { kind: 'sfc', code: '<template><vs-gauge>x</vs-gauge></template>', context: { version } });
        const directive = await server.call('get_vlossom_reference', { type: 'directive', id: 'v-gauge', version });
        const composable = await server.call('get_vlossom_reference', { type: 'composable', id: 'useGauge', version });
        const option = await server.call('get_vlossom_reference', { type: 'option', version });
        const find = await server.call('search_vlossom', { query: 'gauge', target: 'directive', version });
        const got = {
            directive: directive.data.reference?.versionSupport?.status,
            composable: composable.data.reference?.versionSupport?.status,
            plugin: option.data.reference?.plugins.find((p) => p.property === 'gauge')?.versionSupport?.status,
            search: find.data.results.find((r) => r.id === 'v-gauge')?.versionSupport?.status,
            reference: ref.data.reference?.versionSupport?.status,
            usage: use.data.status === 'ok' ? 'supported' : use.data.unsupportedComponents?.[0]?.name === 'VsGauge' && !use.data.code ? 'unsupported' : 'broken',
            styleSet: look.data.status === 'ok' ? 'supported' : look.data.unsupportedComponents?.[0]?.name === 'VsGauge' && !look.data.code ? 'unsupported' : 'broken',
            validation: check.data.issues.some((i) => i.ruleId === 'VERSION_UNSUPPORTED') ? 'unsupported' : check.data.valid ? 'supported' : 'broken',
        };
        let violation = null;
        for (const [where, status] of Object.entries(got)) {
            if (status !== (ok ? 'supported' : 'unsupported')) {
                violation ??= `${where}: a component available from ${minimum} is ${status} for a project on ${version}`;
            }
        }
        if (ref.data.reference?.versionSupport?.minimumVersion !== minimum) {
            violation ??= `the minimum version is given as ${ref.data.reference?.versionSupport?.minimumVersion} instead of ${minimum}`;
        }
        return { state: `${version} ${minimum}`, sample: { version, minimum }, outcome: String(ok), transitions: 8, violation };
    },
};
